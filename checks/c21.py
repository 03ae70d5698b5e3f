"""C21 the malicious mode of the OKVS PSI fixes its challenge by a committed coin toss and hashes every output under it."""
from prog import AnalysisError
from ai import AV, RV, E0
from flow import *
from c05 import fn, effects
import models
from runner import analyse, SELF

N = "psi::rr22::"
FAST, LOW = "FastMode", "LowCommMode"
FULL = 32       # bytes of the commitment


class R(Flow):
    K = 8
    async_eager = True
    inline_max = 14

    def __init__(self):
        Flow.__init__(self)
        self.bad, self.seen = [], {}

    def no_inline(self, I, fn):
        return "/okvs/" in fn.file or fn.f.endswith("DavisMeyerHash") or fn.file.endswith("rr22_utils.h")

    def rep(self, I, n, rule, msg):
        if not I.dry:
            self.bad.append((rule, msg, I.where(n), I.chain()))

    def num(self, I, st, t):
        """Lower bound of a size known on this path, or None."""
        c, v = I.T.const(t)
        if c:
            return v
        for k, x in st.conds.items():
            q = I.T.tab[k]
            if x and q[0] == "==" and t in (q[1], q[2]):
                c, v = I.T.const(q[2] if q[1] == t else q[1])
                if c:
                    return v
            if not x and q[0] == "<" and q[1] == t and I.T.const(q[2])[0]:
                return I.T.const(q[2])[1]
        return None

    def size(self, I, st, rv):
        for l in ([rv.loc] if rv.loc is not None else []) + list(rv.av.ref):
            for x in (l, l[:-1]):
                a = st.store.get(x + ("@size",))
                if a is not None:
                    return self.num(I, st, a.t)
        return None

    def compared(self, I, st, n, args, size, eq, ne):
        lab = self.deep(I, st, args)
        s2 = st.copy()
        if "H(opened)" in lab and "commitment" in lab:
            self.seen["compared"] = 1
            if size is None or size < FULL:
                self.rep(I, n, "opened share matches the commitment", "the opened share is compared with the commitment over %s bytes only" % (size if size is not None else "an unknown number of"))
            s2.add(("eff", "opening checked"))
        return [(s2, RV(I.cst(eq), None)), (st, RV(I.cst(ne), None))]

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if b.startswith("yacl::crypto::SecureRandU") or b == "yacl::crypto::SecureRandSeed":
            return V(("own share",), why="share")
        if cls == "yacl::crypto::RandomOracle" and m not in ("RandomOracle",):
            lab = self.deep(I, st, args[:1])
            out = set()
            if "own share" in lab:
                out.add("H(own share)")
            if "opened" in lab:
                out.add("H(opened)")
            r = V(out, why="ro")
            c, v = I.isc(args[1].av) if len(args) > 1 else (False, None)
            if c:
                st.store[r[0][1].loc + ("@size",)] = I.cst(v)
            return r
        if b in ("memcmp", "std::memcmp") and len(args) == 3:
            z = self.num(I, st, args[2].av.t)
            return self.compared(I, st, n, args[:2], z, 0, 1)
        if b in ("std::equal",) or m in ("operator==", "operator!=") and len(args) + (obj is not None) == 2:
            xs = args + ([obj] if obj is not None else [])
            if {"H(opened)", "commitment"} <= set(self.deep(I, st, xs)):
                zs = [self.size(I, st, x) for x in xs]
                zs = [z for z in zs if z is not None]
                return self.compared(I, st, n, xs, min(zs) if zs else FULL, m != "operator!=", m == "operator!=")
        if cls == LINK and m in ("Recv", "RecvInternal"):
            k = len([x for x in st.facts if x[0] == "recv"]) + 1
            st.add(("recv", k))
            return V((self.recvs.get(k, PEER),), why="recv")
        if cls == LINK and m in SEND or m in ("SendChunked",):
            lab = set(self.deep(I, st, args[1:2]))
            got = len([x for x in st.facts if x[0] == "recv"])
            e = effects(st)
            if "own share" in lab and self.toss:
                self.seen["opened"] = 1
                if got < 1:
                    self.rep(I, n, "share is opened only after the peer is bound", "the own share is sent before the peer's %s has arrived" % self.first)
                if self.sender and "committed" not in e:
                    self.rep(I, n, "commitment comes first", "the own share is opened although no commitment to it has been sent")
                st.add(("eff", "share sent"))
            if "H(own share)" in lab:
                self.seen["committed"] = 1
                if got:
                    self.rep(I, n, "commitment comes first", "the commitment is sent after the peer's share has been received")
                st.add(("eff", "committed"))
            return V()
        if m == "RecvChunked":
            return V((PEER,))
        if m == "DavisMeyerHash" and len(args) == 3:
            lab = self.deep(I, st, args[:1])
            miss = [x for x in self.need if x not in lab]
            self.seen["hashed"] = 1
            if miss:
                self.rep(I, n, "outputs are hashed under the challenge", "the outputs are hashed on a path where they do not contain %s" % " and ".join("the " + x for x in miss))
            if "input" not in self.deep(I, st, args[1:2]):
                self.rep(I, n, "outputs are hashed under the challenge", "the hash does not bind the input")
            st.add(("eff", "hashed"))
            for l in args[2].av.ref:
                base = l[:-1] if l[-1:] == ("[]",) else l
                st.store[base + ("[]",)] = I.fresh("dm", frozenset(["final"]))
            return V()
        if cls.endswith("SilentVoleSender") or cls.endswith("SilentVoleReceiver"):
            if m == cls.rpartition("::")[2]:
                self.seen["vole"] = 1
                if len(args) < 2 or I.isc(args[1].av) not in ((True, True), (True, 1)):
                    self.rep(I, n, "correlations are generated in the malicious mode", "the silent VOLE is set up without the malicious check")
            return None
        return None

    recvs, sender, need, first, toss = {}, False, (), "commitment", True


def eclass(p, mode):
    for k in p.enums:
        if k.endswith("Rr22PsiMode"):
            for x in p.enums[k]["v"]:
                if x["n"].rpartition("::")[2] == mode:
                    return x["v"]
    raise AnalysisError("enum Rr22PsiMode not found")


def run(cx):
    p = cx.prog(scope=("psi/algorithm/rr22/",))
    cx.rule("typestate over the coin toss of Rr22OprfSender / Rr22OprfReceiver with malicious_ set: labels follow both shares, the commitment and the opening; "
            "every path sends, receives and compares them in the required order and hashes its outputs under the combined challenge; constructors and truncation are evaluated for the malicious setting")
    cx.trust("yacl RandomOracle, SilentVole and secure random generator", "Davis-Meyer hash implementation")
    wh = lambda f: "%s:%d" % (f.file, f.line)
    fast, low = eclass(p, FAST), eclass(p, LOW)

    def base(I, st):
        st.store[SELF + ("malicious_",)] = I.cst(True)
        st.store[SELF + ("mode_",)] = I.cst(fast)

    def put(r, what):
        for rule, msg, w, ch in r.bad[:4]:
            cx.fail(rule, what, msg, w, [ch])

    def inputs(I, st, f):
        for q in f.d["ps"]:
            if q["n"].startswith("inputs") or "Span" in f.T[q["t"]].get("s", ""):
                st.store[(("p", q["n"]), "[]")] = I.fresh("in", frozenset(["input"]))

    # sender's half of the coin toss
    f = fn(p, N + "Rr22OprfSender::Send")
    r = R()
    r.sender, r.recvs, r.first = True, {1: "peer share"}, "share"
    own = []

    def setup(I, st):
        base(I, st)
        inputs(I, st, f)
    I, outs = analyse(p, r, f, None, setup)
    put(r, "Rr22OprfSender::Send")
    if not outs:
        raise AnalysisError("no path through the sender's coin toss")
    for st, rv in outs:
        e = effects(st)
        cx.check("committed" in e, "commitment comes first", "Rr22OprfSender::Send commits", "no commitment to the own share is sent", wh(f))
        cx.check("share sent" in e, "share is opened", "Rr22OprfSender::Send", "the own share is never opened", wh(f))
        a = I.rd(st, SELF + ("w_",))
        cx.check({"own share", "peer share"} <= set(a.lab), "challenge combines both shares", "Rr22OprfSender::Send", "the challenge does not depend on both shares", wh(f))
        k = I.T.tab[a.t]
        cx.check(k[0] != "op" or k[1] in ("^", "+", "-"), "challenge combines both shares", "Rr22OprfSender::Send combination", "the shares are combined with %s, which lets one share decide the challenge" % k[1:2], wh(f))
    # sender's outputs
    for f in p.byname.get(N + "Rr22OprfSender::Eval", ()):
        r = R()
        r.need = ("challenge",)

        def setup(I, st):
            base(I, st)
            inputs(I, st, f)
            st.store[SELF + ("w_",)] = I.fresh("w", frozenset(["challenge"]))
        I, outs = analyse(p, r, f, None, setup)
        what = "Rr22OprfSender::Eval/%d" % len(f.d["ps"])
        put(r, what)
        for st, rv in outs:
            cx.check("hashed" in effects(st), "outputs are hashed under the challenge", what, "outputs are returned without the hash of the malicious mode", wh(f))
            cx.check("final" in I.deep(st, rv), "outputs are hashed under the challenge", what + " returns them", "the outputs returned are not the hashed ones", wh(f))
    # receiver
    f = fn(p, N + "Rr22OprfReceiver::Recv")
    r = R()
    r.recvs = {1: "commitment", 2: "opened"}
    r.need = ("own share", "opened")

    def setup(I, st):
        base(I, st)
        inputs(I, st, f)
    I, outs = analyse(p, r, f, None, setup)
    put(r, "Rr22OprfReceiver::Recv")
    if not outs:
        raise AnalysisError("no path through the receiver's coin toss")
    for st, rv in outs:
        e = effects(st)
        cx.check("opening checked" in e, "opened share matches the commitment", "Rr22OprfReceiver::Recv", "the protocol goes on although the opened share has not been found equal to the commitment", wh(f))
        cx.check("share sent" in e, "share is opened", "Rr22OprfReceiver::Recv", "the own share is never sent", wh(f))
        cx.check("hashed" in e, "outputs are hashed under the challenge", "Rr22OprfReceiver::Recv", "outputs are returned without the hash of the malicious mode", wh(f))
        cx.check("final" in I.deep(st, rv), "outputs are hashed under the challenge", "Rr22OprfReceiver::Recv returns them", "the outputs returned are not the hashed ones", wh(f))
    # correlations
    for c in ("Rr22OprfSender", "Rr22OprfReceiver"):
        f = fn(p, N + c + "::Init")
        r = R()
        r.toss = False
        I, outs = analyse(p, r, f, None, base)
        put(r, c + "::Init")
        cx.check("vole" in r.seen, "correlations are generated in the malicious mode", c + "::Init", "no silent VOLE is set up", wh(f))
    # settings
    for c in ("Rr22OprfSender", "Rr22OprfReceiver"):
        g = [x for x in p.fns.values() if x.cls == N + c and x.d.get("ctor") and len(x.d["ps"]) >= 4 and x.d.get("body")]
        if len(g) != 1:
            raise AnalysisError("constructor of %s not found" % c)
        g = g[0]
        ps = {x: [q["n"] for q in g.d["ps"] if x in q["n"]] for x in ("mode", "malicious")}
        if not all(ps.values()):
            raise AnalysisError("constructor of %s not understood" % c)
        for mode, v in ((FAST, fast), (LOW, low)):
            I, outs = analyse(p, R(), g, None, None, args={ps["mode"][0]: lambda I, st: RV(I.cst(v), None), ps["malicious"][0]: lambda I, st: RV(I.cst(True), None)})
            if mode == LOW:
                cx.check(not outs, "malicious mode needs the fast mode", c, "malicious mode is accepted together with the low communication mode, which does not implement it", wh(g))
            else:
                for st, _ in outs:
                    cx.check(I.isc(I.rd(st, SELF + ("malicious_",))) in ((True, True), (True, 1)), "setting reaches the protocol", c, "the malicious setting is not kept", wh(g))
    for c, o in (("BucketRr22Sender", "Rr22OprfSender"), ("BucketRr22Receiver", "Rr22OprfReceiver")):
        g = [x for x in p.fns.values() if x.cls == N + c and x.d.get("ctor") and len(x.d["ps"]) >= 4]
        if len(g) != 1:
            raise AnalysisError("constructor of %s not found" % c)
        g = g[0]
        for mal, want in ((True, True), (False, False)):
            class B(R):
                def special(self, I, st, n, b, cls, m, obj, args):
                    if b == N + o + "::" + o:
                        self.seen["oprf"] = 1
                        got = I.isc(args[4].av) if len(args) >= 5 else (True, False)
                        if mal and (not got[0] or not got[1]):
                            self.rep(I, n, "setting reaches the protocol", "the OPRF is built without the malicious setting of the options")
                        got = I.isc(args[2].av) if len(args) >= 3 else (True, fast)
                        if got != (True, fast if mal else low):
                            self.rep(I, n, "setting reaches the protocol", "the OPRF is built with another mode than that of the options")
                        return self.val(I, st, ())
                    return R.special(self, I, st, n, b, cls, m, obj, args)
            r = B()
            o0 = g.d["ps"][0]["n"]

            def setup(I, st):
                st.store[(("p", o0), "malicious")] = I.cst(mal)
                st.store[(("p", o0), "mode")] = I.cst(fast if mal else low)
            analyse(p, r, g, None, setup)
            put(r, c)
            cx.check("oprf" in r.seen, "setting reaches the protocol", c, "the OPRF is not constructed from the options", wh(g))
    f = fn(p, N + "ExchangeTruncateSize")
    op = f.d["ps"][-1]["n"]
    for comp in (True, False):
        def setup(I, st):
            st.store[(("p", op), "malicious")] = I.cst(True)
            st.store[(("p", op), "compress")] = I.cst(comp)
        I, outs = analyse(p, R(), f, None, setup)
        for st, rv in outs:
            a = None
            for l in ([rv.loc] if rv.loc is not None else []) + list(rv.av.ref):
                for x in ("first", "#0"):
                    a = a or st.store.get(l + (x,))
            if a is None:
                raise AnalysisError("result of ExchangeTruncateSize not understood")
            cx.check(I.isc(a) == (True, 16), "full outputs are compared", "ExchangeTruncateSize, compression %s" % comp, "the outputs of the malicious mode are truncated before they are compared", wh(f))
    g = [x for x in p.fns.values() if x.cls == N + "Rr22PsiOptions" and x.d.get("ctor") and len(x.d["ps"]) == 4]
    if len(g) == 1:
        g = g[0]
        I, outs = analyse(p, R(), g, None, None, args={g.d["ps"][3]["n"]: lambda I, st: RV(I.cst(True), None)})
        for st, _ in outs:
            cx.check(I.isc(I.rd(st, SELF + ("malicious",))) in ((True, True), (True, 1)), "setting reaches the protocol", "Rr22PsiOptions", "the malicious setting is not kept", wh(g))
    cx.floor("obligations checked", len(cx.obl), 15)

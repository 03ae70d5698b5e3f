"""C06 the intersection is forwarded to the other party only when broadcasting is configured."""
from prog import AnalysisError, fn_nodes
from ai import AV, RV, E0
from flow import *
from c05 import fn, effects
import models
from runner import analyse, SELF

MATCH = "match"


RUNS = []


class R(Flow):
    K = 6

    def __init__(self):
        Flow.__init__(self)
        RUNS.append(self)

    async_eager = True
    world = 2

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/checkpoint/", "psi/cryptor/", "psi/utils/arrow", "psi/utils/batch", "psi/utils/table_utils", "psi/utils/csv", "psi/utils/key", "psi/utils/join", "psi/utils/index_store",
                                   "psi/utils/resource", "psi/utils/io", "psi/utils/multiplex", "psi/utils/ec_point", "psi/utils/hash_bucket", "psi/utils/trace", "psi/utils/sync.cc", "psi/utils/serialize",
                                   "psi/algorithm/kkrt/kkrt_psi", "psi/algorithm/rr22/rr22_oprf", "psi/algorithm/rr22/okvs", "psi/algorithm/nty/server_aided", "psi/algorithm/rr22/common"))

    def ev(self, I, st, x):
        st.add(("eff", x))

    def special(self, I, st, n, b, cls, m, obj, args):
        if b == "psi::BroadcastResult":
            self.ev(I, st, "broadcast")
            return None
        if b == "yacl::link::Broadcast":
            if not self.syncmsg(I, n):
                self.ev(I, st, "broadcast")
            r = self.val(I, st, (MATCH,), why="bc")
            return r
        if m in ("KkrtPsiRecv", "KkrtPsiRecvIndices") and b.startswith("psi::"):
            return self.val(I, st, (MATCH,), {"first": (MATCH,), "second": (MATCH,)}, "match")
        if m == "find" and obj is not None and "dense_hash_map" in cls and args:
            l = I.tmp("found")
            st.store[l + ("first",)] = I.fresh("first", frozenset([MATCH]))
            st.store[l + ("second",)] = I.fresh("second", frozenset([MATCH]))
            return [(st, RV(AV(I.T.fresh("found"), frozenset([MATCH]), (l,), ()), None))]
        if m == "ServerAidedPsi" and len(args) >= 7:
            return None
        if m in ("at", "operator[]") and obj is not None and args and MATCH in args[0].av.lab:
            # picking an element by a matched position tells the position
            return self.val(I, st, self.deep(I, st, [obj]) | {MATCH}, why="picked")
        if b.endswith("CreateP2PLinkCtx"):
            l = (("h", I.fr.id, n["l"], "p2p"),)
            st.store[l + ("@cls",)] = I.cst(LINK)
            return [(st, RV(AV(I.T.mk("&", l), E0, (l,), ()), None))]
        if cls == LINK and m in SEND:
            self.ev(I, st, "sent:" + self.fname(I))
        if cls == LINK and m in ("Recv", "RecvInternal"):
            self.ev(I, st, "received:" + self.fname(I))
        return None

    def syncmsg(self, I, n):
        return False


def bc(x):
    return "on" if x else "off"


def run(cx):
    p = cx.prog(scope=("psi/algorithm/", "psi/legacy/", "psi/utils/bucket"))
    cx.rule("for broadcast on and off, whether the code that forwards the intersection (collective broadcast, or the send of matched indices) is reached on some/no path from each protocol's entry point")
    cx.trust("messages inside the KKRT and RR22 transfers are decided by the masking property", "BroadcastResult sends its argument")
    n = 0

    def both(what, f, roots, must=False, eff="broadcast"):
        """roots(bc) -> outs; forwards never when off, and on some (must: every) path when on."""
        nonlocal n
        wh = "%s:%d" % (f.file, f.line)
        for v in (False, True):
            RUNS.clear()
            for side, outs in roots(v):
                n += 1
                if not v:
                    for r in RUNS:
                        for fname, w, dst, lab, ch, tag in r.sends:
                            cx.check(MATCH not in lab, "keeps otherwise", "%s%s: send in %s" % (what, side, fname), "data derived from the intersection is sent although broadcasting is not configured", w, [ch])
                if not outs:
                    raise AnalysisError("no end of %s reached" % f.f)
                got = [eff in effects(st) for st, _ in outs]
                if v:
                    cx.check(all(got) if must else any(got), "forwards when configured", what + side, "the intersection is %s forwarded although broadcasting is configured" % ("not always" if must and any(got) else "never"), wh)
                else:
                    cx.check(not any(got), "keeps otherwise", what + side, "a path forwards the intersection although broadcasting is not configured", wh)

    def arg(name):
        return lambda v: {name: lambda I, st: RV(I.cst(v), None)}

    seq = fn(p, "psi::PsiOperator::OnSequenceRun")

    def r_seq(v):
        out = []
        for rr in (0, 1):
            def setup(I, st):
                st.store[SELF + ("opts_", "broadcast_result")] = I.cst(v)
                st.store[SELF + ("broadcast_result_",)] = I.cst(v)
                st.store[SELF + ("opts_", "receiver_rank")] = I.cst(rr)
                st.store[SELF + ("is_recevicer_",)] = I.cst(rr == 0)
            out.append((", receiver" if rr == 0 else ", other party", analyse(p, R(), seq, "psi::kkrt::KkrtOperator", setup)[1]))
        return out
    both("operator run", seq, r_seq, must=True)
    # the constructors hand the configured flag to the base
    for cls in ("psi::kkrt::KkrtOperator", "psi::rr22::Rr22Operator"):
        cs = [f for f in p.fns.values() if f.cls == cls and f.d.get("ctor") and len(f.d["ps"]) >= 3 and f.d.get("body")]
        if len(cs) != 1:
            raise AnalysisError("constructor of %s not found" % cls)
        for v in (False, True):
            def opt(I, st):
                l = (("p", "opts"),)
                st.store[l + ("broadcast_result",)] = I.cst(v)
                return RV(I.rd(st, l), l)
            I, outs = analyse(p, R(), cs[0], cls, None, args={cs[0].d["ps"][0]["n"]: lambda I, st: optp(I, st, cs[0].d["ps"][0]["n"], v)})
            n += 1
            for st, _ in outs:
                k, x = I.isc(I.rd(st, SELF + ("broadcast_result_",)))
                cx.check(k and bool(x) == v, "flag handed on", "%s, broadcast %s" % (cls, bc(v)), "the operator does not run with the configured broadcast setting", "%s:%d" % (cs[0].file, cs[0].line))
    for f in ("psi::HandleBucketResultBySender", "psi::HandleBucketResultByReceiver"):
        g = fn(p, f)
        both(f.split("::")[-1], g, lambda v: [("", analyse(p, R(), g, None, None, args=arg("broadcast_result")(v))[1])], must=True)
    g0 = fn(p, "psi::PsiBaseOperator::Run")
    both("legacy operator", g0, lambda v: [("", analyse(p, R(), g0, "psi::KkrtPsiOperator", None, args=arg("broadcast_result")(v))[1])], must=True)
    # multi-party runs built from two-party steps never forward the intermediate result
    nm = fn(p, "psi::NpartyPsiOperator::Run2PartyPsi")
    I, outs = analyse(p, R(), nm, None)
    n += 1
    cx.check(not any("broadcast" in effects(st) for st, _ in outs), "keeps otherwise", "two-party step of a multi-party run", "an intermediate intersection is forwarded to the party that is not its target", "%s:%d" % (nm.file, nm.line))
    # OKVS based protocol: matched positions
    for side in ("Receiver", "Sender"):
        for g in [f for f in p.byname.get("psi::rr22::GetIntersection" + side, []) if f.d.get("body")]:
            tag = "GetIntersection%s/%d" % (side, len(g.d["ps"]))
            if side == "Receiver":
                both(tag, g, lambda v: [("", analyse(p, R(), g, None, None, args=arg("broadcast_result")(v))[1])], must=True, eff="sent:" + g.f)
            else:
                both(tag, g, lambda v: [("", analyse(p, R(), g, None, None, args=arg("broadcast_result")(v))[1])], must=True, eff="received:" + g.f)
    # parties: the configured flag reaches the protocol
    for proto, cls in (("kkrt", "KkrtPsi"), ("rr22", "Rr22Psi")):
        for side in ("Receiver", "Sender"):
            on = fn(p, "psi::%s::%s%s::Online" % (proto, cls, side))

            def roots(v):
                def setup(I, st):
                    st.store[SELF + ("config_", "protocol_config", "broadcast_result")] = I.cst(v)
                    st.store[SELF + ("digest_equal_",)] = I.cst(False)
                return [("", analyse(p, R(), on, None, setup)[1])]
            both("%s %s" % (proto, side.lower()), on, roots, eff="broadcast" if proto == "kkrt" else ("sent:" if side == "Receiver" else "received:") + "psi::rr22::GetIntersection" + side)
    # each bucket of the OKVS based protocol
    for side, eff in (("Receiver", "sent:"), ("Sender", "received:")):
        on1 = fn(p, "psi::rr22::BucketRr22%s::GetIntersection" % side)

        def roots(v):
            def setup(I, st):
                st.store[SELF + ("broadcast_result_",)] = I.cst(v)
                st.store[SELF + ("null_bucket_",)] = I.cst(False)
            return [("", analyse(p, R(), on1, "psi::rr22::BucketRr22" + side, setup)[1])]
        both("bucket " + side.lower(), on1, roots, must=True, eff=eff + "psi::rr22::GetIntersection" + side)
    # the operator form
    oo = [f for f in p.byname.get("psi::rr22::Rr22Operator::OnRun", []) if f.d.get("body") and not f.d["ps"]]
    if len(oo) != 1:
        raise AnalysisError("psi::rr22::Rr22Operator::OnRun not found")

    for v in (False, True):
        for mine in (True, False):
            def setup(I, st):
                l = (("h", 0, 0, "link"),)
                st.store[l + ("@cls",)] = I.cst(LINK)
                st.store[SELF + ("opts_", "broadcast_result")] = I.cst(v)
                st.store[SELF + ("broadcast_result_",)] = I.cst(v)
                st.store[SELF + ("opts_", "receiver_rank")] = I.cst(0 if mine else 1)
            r = Runs()
            analyse(p, r, oo[0], "psi::rr22::Rr22Operator", setup)
            n += 1
            if not r.got:
                raise AnalysisError("Rr22Operator::OnRun does not run the protocol")
            for k, x, w in r.got:
                cx.check(k and bool(x) == v, "flag handed on", "OKVS operator, %s, broadcast %s" % ("receiver" if mine else "other party", bc(v)), "the protocol is not run with the configured broadcast setting", w)
    # legacy: the flag travels from the bucket configuration to the operator
    mr = fn(p, "psi::MemoryPsi::Run")
    bi = fn(p, "psi::BucketPsi::Init")
    for v in (False, True):
        r = Cap()

        def setup(I, st):
            st.store[SELF + ("config_", "broadcast_result")] = I.cst(v)
        I, outs = analyse(p, r, mr, "psi::MemoryPsi", setup)
        n += 1
        if not r.got:
            raise AnalysisError("MemoryPsi::Run does not run an operator")
        for k, x, w in r.got:
            cx.check(k and bool(x) == v, "flag handed on", "MemoryPsi::Run, broadcast %s" % bc(v), "the operator is not run with the configured broadcast setting", w)
        r = Cap()
        I, outs = analyse(p, r, bi, "psi::BucketPsi", setup)
        n += 1
        seen = 0
        for st, _ in outs:
            for l in I.rd(st, SELF + ("mem_psi_",)).ref or ():
                seen += 1
                k, x = I.isc(I.rd(st, l + ("config_", "broadcast_result")))
                cx.check(k and bool(x) == v, "flag handed on", "BucketPsi::Init, broadcast %s" % bc(v), "the in-memory protocol does not get the configured broadcast setting", "%s:%d" % (bi.file, bi.line))
        if not seen:
            raise AnalysisError("BucketPsi::Init does not make the in-memory protocol")
    # server-aided multi-party protocol
    for m, world in (("ThreePartyPsi", 3), ("MultiPartyPsi", 4)):
        g1 = fn(p, "psi::nty::NtyMPsi::" + m)

        def roots(v):
            out = []
            for rank in range(world):
                def setup(I, st):
                    o = SELF + ("options_",)
                    st.store[o + ("broadcast_result",)] = I.cst(v)
                    for i, x in enumerate(("aided_server_rank", "helper_rank", "receiver_rank")):
                        st.store[o + (x,)] = I.cst(i)
                r = R()
                r.rank, r.world = rank, world
                out.append((", rank %d" % rank, analyse(p, r, g1, None, setup)[1]))
            return out
        both("server-aided " + m, g1, roots, must=True)
    cx.floor("runs analysed", n, 45)


class Cap(Flow):
    K = 8
    async_eager = True
    world = 2

    def __init__(self):
        Flow.__init__(self)
        self.got = []

    def no_inline(self, I, fn):
        return fn.cls not in ("psi::MemoryPsi", "psi::BucketPsi") or fn.f.rpartition("::")[2].startswith("Check")

    def special(self, I, st, n, b, cls, m, obj, args):
        if m == "Run" and len(args) == 2:
            k, x = I.isc(args[1].av)
            self.got.append((k, x, I.where(n)))
            return self.val(I, st, ())
        return None


class Runs(R):
    def __init__(self):
        R.__init__(self)
        self.got = []

    def special(self, I, st, n, b, cls, m, obj, args):
        if cls == "psi::rr22::Rr22Runner" and m.endswith("Run"):
            k, x = I.isc(I.rd(st, obj.loc + ("broadcast_result_",))) if obj is not None and obj.loc else (False, None)
            self.got.append((k, x, I.where(n)))
            return self.val(I, st, ())
        return R.special(self, I, st, n, b, cls, m, obj, args)


def optp(I, st, name, v):
    l = (("p", name),)
    st.store[l + ("broadcast_result",)] = I.cst(v)
    return RV(I.rd(st, l), l)

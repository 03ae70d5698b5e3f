"""C19 the parties agree on the shared parameters before anything derived from items is exchanged."""
from prog import AnalysisError, gen_protos
from ai import AV, RV, E0
from flow import *
from c05 import fn
import pbdesc
import models
from runner import analyse, SELF

PSI = ".psi.v2.PsiConfig"
# fields a party may choose on its own; everything else must be the same on both sides
LOCAL = ("input_config", "output_config", "keys", "debug_options", "disable_alignment", "input_attr.keys_unique", "count_path", "recovery_config.folder")
ROLE = "protocol_config.role"
DO = ("PreProcess", "Online", "PostProcess", "Finalize")
PARTY = [("psi::ecdh::EcdhPsi", "ecdh"), ("psi::kkrt::KkrtPsi", "kkrt"), ("psi::rr22::Rr22Psi", "rr22")]
EQ = ("operator==", "operator!=")


def leaves(msgs, name, pre=(), seen=()):
    """Field paths of a message down to scalars (a repeated field is one leaf)."""
    out = []
    for f in msgs[name]["fields"].values():
        ty, _, tn = f["type"].partition(" ")
        p = pre + (f["name"],)
        if ty == "message" and f["card"] != "repeated" and tn not in seen and tn in msgs:
            sub = leaves(msgs, tn, p, seen + (name,))
            out += sub or [p]
        else:
            out.append(p)
    return out


def islocal(p):
    return any(p == x or p.startswith(x + ".") for x in LOCAL)


class Config(Flow):
    """Field-wise tracking of a configuration message through copies, serialization and the exchange between two parties."""
    K = 8
    world = 2

    def __init__(self, leaf, rank=0, pre="cfg:"):
        Flow.__init__(self)
        self.leaf, self.rank, self.pre = leaf, rank, pre
        self.parsed, self.gathers, self.cmps = [], 0, []

    def put(self, I, st, loc, lab=()):
        for p in self.leaf:
            st.store[loc + p] = I.fresh(".".join(p), frozenset([self.pre + ".".join(p)]) | frozenset(lab))

    def get(self, I, st, rv):
        """Labels of every leaf of a message value."""
        loc = rv.loc if rv.loc is not None and not (rv.av.ref and self.ismsgptr(st, rv)) else (rv.av.ref[0] if rv.av.ref else None)
        if loc is None:
            raise AnalysisError("message without a location")
        return {p: I.rd(st, loc + p).lab for p in self.leaf}, loc

    def ismsgptr(self, st, rv):
        return False

    def fork(self, I, st, fact, neg=False):
        out = []
        for v in (True, False):
            s2 = st.copy()
            if v:
                s2.add(fact)
            out.append((s2, RV(I.cst(v != neg), None)))
        return out

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if n.get("pb") is None and m in ("SerializeToString", "SerializeAsString", "SerializePartialToString", "SerializeToArray", "AppendToString") or m in ("SerializeToString", "SerializeAsString", "AppendToString"):
            labs, _ = self.get(I, st, obj)
            lab = frozenset().union(*labs.values()) | {"config"}
            if m == "SerializeAsString":
                return V(lab, why="ser")
            for l in args[0].av.ref or ((args[0].loc,) if args[0].loc else ()):
                I.wr(st, l, RV(I.fresh("ser", lab), None), n)
            return [(st, RV(I.fresh("ok"), None))]
        if m in ("ParseFromString", "ParseFromArray", "ParsePartialFromString") and obj is not None:
            lab = self.deep(I, st, args[:1])
            loc = obj.loc if obj.loc is not None else obj.av.ref[0]
            side = frozenset(x for x in lab if not x.startswith(self.pre))
            for p in self.leaf:
                q = self.pre + ".".join(p)
                I.wr(st, loc + p, RV(I.fresh(".".join(p), (frozenset([q]) if q in lab else E0) | side), None), n)
            self.parsed.append((side, {p: st.store[loc + p].t for p in self.leaf}))
            return [(st, RV(I.fresh("ok"), None))]
        if b.endswith("MessageDifferencer::Equals") or b.endswith("MessageDifferencer::Equivalent"):
            (la, xa), (lb, xb) = self.get(I, st, args[0]), self.get(I, st, args[1])
            return self.compared(I, st, n, la, lb)
        if (m in EQ) and len(args) + (obj is not None) == 2:
            x, y = ([obj] if obj is not None else []) + args
            a, c = self.deep(I, st, [x]), self.deep(I, st, [y])
            if "config" in a and "config" in c:
                f = lambda s: {p: (frozenset([self.pre + ".".join(p)]) if self.pre + ".".join(p) in s else E0) | frozenset(z for z in s if not z.startswith(self.pre)) for p in self.leaf}
                return self.compared(I, st, n, f(a), f(c), m == "operator!=")
        if b in GATHER and len(args) > 1:
            lab = self.deep(I, st, args[1:2])
            if lab:
                self.gathers += not I.dry
                r = V(lab | {"peer", "gathered"}, why="gathered")
                l = r[0][1].loc
                st.store[l] = I.fresh("gathered", frozenset(["gathered"]))
                st.store[l + ("[]",)] = I.fresh("any", lab | {"peer"})
                for i in range(self.world):
                    st.store[l + ("#%d" % i,)] = I.fresh("rank%d" % i, lab | ({"peer"} if i != self.rank else {"own"}))
                return r
        if m in ("operator[]", "at") and obj is not None and obj.loc is not None and "gathered" in I.rd(st, obj.loc).lab and args:
            c, v = I.isc(args[0].av)
            if c and obj.loc + ("#%d" % v,) in st.store:
                l = obj.loc + ("#%d" % v,)
                return [(st, RV(I.rd(st, l), l))]
        return None

    def compared(self, I, st, n, la, lb, neg=False):
        both = {".".join(p): (la[p], lb[p]) for p in self.leaf}
        miss = sorted(q for q, (a, c) in both.items() if not (self.pre + q in a and self.pre + q in c))
        mine = frozenset().union(*la.values()), frozenset().union(*lb.values())
        sides = sum("peer" in x for x in mine)
        if not I.dry:
            self.cmps.append((miss, sides, I.where(n)))
        return self.fork(I, st, ("agreed", tuple(miss), sides == 1), neg)


class Order(Flow):
    """Run() of one party: nothing derived from the items is sent, and no protocol phase starts, before the configurations were compared."""
    K = 8
    inline_max = 14

    def __init__(self, rank):
        Flow.__init__(self)
        self.rank = rank
        self.bad, self.seen = [], {}

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/utils/join", "psi/utils/table", "psi/utils/arrow", "psi/checkpoint/", "psi/utils/index_store", "psi/utils/resource", "psi/utils/progress", "psi/utils/trace", "psi/utils/bucket"))

    def rep(self, I, n, rule, site, msg):
        if not I.dry:
            self.bad.append((rule, site, msg, I.where(n), I.chain()))

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if m == "CheckSelfConfig" and "Party" in cls:
            st.add(("self",))
            return V()
        if m == "CheckPeerConfig" and "Party" in cls:
            self.seen["compared"] = 1
            if ("self",) not in st.facts:
                self.rep(I, n, "own configuration first", self.fname(I), "the configurations are compared before the party has checked its own")
            st.add(("agreed",))
            return V()
        if m in DO and ("Psi" in cls):
            self.seen[m] = 1
            if ("agreed",) not in st.facts:
                self.rep(I, n, "agreement before the protocol", m, "%s runs on a path where the configurations of the parties have not been compared" % m)
            return V()
        if m in ("GetUniqueKeysInfo", "KeysHash", "DupKeyCnt", "KeyCnt", "OriginCnt", "GetKeysProviderWithDupCnt", "GetBatchProvider"):
            self.seen["items read"] = 1
            return V((RAW,), why=m)
        if b in GATHER or cls == LINK and m in SEND:
            if RAW in self.deep(I, st, args[1:]):
                self.seen["derived from items"] = 1
                if ("agreed",) not in st.facts:
                    self.rep(I, n, "agreement before the protocol", self.fname(I), "data derived from the items is sent before the configurations of the parties have been compared")
        return None


class Ecdh(Config):
    """CheckConfig and the place it is called from."""

    def __init__(self, rank=0):
        Config.__init__(self, (), rank)
        self.bad, self.seen = [], {}

    def rep(self, I, n, rule, site, msg):
        if not I.dry:
            self.bad.append((rule, site, msg, I.where(n), I.chain()))

    need = frozenset(["target_rank", "curve"])

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if m == "GetCurveType":
            return V(("curve",), why="curve")
        if m in EQ and len(args) + (obj is not None) == 2:
            x, y = ([obj] if obj is not None else []) + args
            a, c = self.deep(I, st, [x]), self.deep(I, st, [y])
            if ("peer" in a) != ("peer" in c):
                self.cmps.append(((a & self.need, c & self.need), 1, I.where(n)))
                st2 = [(x, "v") for x in sorted(self.need & a & c)]
                out = []
                for v in (True, False):
                    s2 = st.copy()
                    if v:
                        for q in self.need & a & c:
                            s2.add(("eq", q))
                    out.append((s2, RV(I.cst(v != (m == "operator!=")), None)))
                return out
        return Config.special(self, I, st, n, b, cls, m, obj, args)


class Before(Flow):
    """RunEcdhPsi / the two-party part of the three-party protocol: CheckConfig before the masked items go out."""
    K = 8
    inline_max = 12

    def __init__(self, site, rank=0, world=2):
        Flow.__init__(self)
        self.site, self.rank, self.world = site, rank, world
        self.bad, self.seen = [], {}

    def no_inline(self, I, fn):
        return fn.cls in ("psi::ecdh::EcdhPsiContext", "psi::ecdh::ShuffleEcdh3PcPsi::Context") or fn.f.endswith(("SendBatchImpl", "RecvBatchImpl"))

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if cls.endswith("Context") and cls != LINK:
            if m == "CheckConfig":
                self.seen["CheckConfig"] = 1
                st.add(("checked",))
                return V()
            if m in ("MaskSelf", "MaskPeer", "RecvDualMaskedSelf", "MaskSendSelf", "MaskRecvPeer", "MaskShufflePeer", "RecvDupMasked"):
                self.seen[m] = 1
                if ("checked",) not in st.facts and not I.dry:
                    self.bad.append(("parameters checked first", self.site + " " + m, "%s runs before the parties have compared the result entitlement and the curve" % m, I.where(n), I.chain()))
                return V()
            if m in ("SendItems", "RecvItems"):
                return V()
        return None


def run(cx):
    p = cx.prog()
    d, _ = gen_protos()
    msgs, _e = pbdesc.load(d + "/all.desc")
    leaf = leaves(msgs, PSI)
    shared = [".".join(q) for q in leaf if not islocal(".".join(q)) and ".".join(q) != ROLE]
    cx.floor("configuration fields", len(leaf), 15)
    cx.floor("configuration fields both parties must share", len(shared), 8)
    cx.rule("CheckPeerConfig follows the configuration field by field from the party's own copy through serialization, the exchange and the comparison: every field of the message (taken from the compiled .proto) except the "
            "listed party-local ones reaches the comparison from both sides, the comparison is between the two parties' data, it returns only when the comparison succeeded and the two roles differ")
    cx.rule("in Run of every two-party protocol, on every path, no protocol phase starts and nothing computed from the keys is sent before CheckSelfConfig and CheckPeerConfig have returned; "
            "RunEcdhPsi and the partners' part of the three-party protocol start no exchange before CheckConfig, which returns only if target rank and curve of both parties are equal")
    cx.trust("AllGather delivers to index i what rank i passed in", "a protobuf message read back from its own serialization equals the original")
    # ---- the comparison
    f = fn(p, "psi::AbstractPsiParty::CheckPeerConfig")
    for rank in (0, 1):
        R = Config(leaf, rank)
        I, outs = analyse(p, R, f, "psi::AbstractPsiParty", lambda I, st: R.put(I, st, SELF + ("config_",)))
        if not outs:
            raise AnalysisError("CheckPeerConfig never returns")
        s0 = "CheckPeerConfig"
        ok = [any(x[0] == "agreed" and x[2] for x in st.facts) for st, _ in outs]
        cx.check(all(ok), "agreement enforced", s0, "CheckPeerConfig returns on a path where the configurations of the two parties were not found equal", "%s:%d" % (f.file, f.line))
        for q in shared:
            bad = [st for st, _ in outs if not any(x[0] == "agreed" and x[2] and q not in x[1] for x in st.facts)]
            cx.check(not bad, "field agreed", q, "field %s of the configuration is left out of the comparison between the parties" % q, "%s:%d" % (f.file, f.line))
        role = tuple(ROLE.split("."))
        terms = [(s, t[role]) for s, t in R.parsed]
        own = ({"own"}, I.rd(outs[0][0], SELF + ("config_",) + role).t) if outs else None
        pairs = [(x[1], y[1]) for i, x in enumerate(terms) for y in terms[i + 1:] if ("peer" in x[0]) != ("peer" in y[0])] + [(x[1], own[1]) for x in terms if "peer" in x[0]]
        diff = all(any(I.known(st, I.cmp("==", a, c)) is False for a, c in pairs) for st, _ in outs)
        cx.check(diff, "roles differ", s0, "CheckPeerConfig returns on a path where both parties may have the same role", "%s:%d" % (f.file, f.line))
    cx.floor("exchanges of the configuration", R.gathers, 1)
    # ---- own role
    R = Config((), 0)
    f = fn(p, "psi::AbstractPsiParty::CheckSelfConfig")
    I, outs = analyse(p, R, f, "psi::AbstractPsiParty", None)
    for st, _ in outs:
        t = I.cmp("==", I.rd(st, SELF + ("config_", "protocol_config", "role")).t, I.rd(st, SELF + ("role_",)).t)
        cx.check(I.known(st, t) is True, "own role", "CheckSelfConfig", "a party can start with a configuration made for the other role", "%s:%d" % (f.file, f.line))
    # ---- order
    phases = 0
    for base, nm in PARTY:
        for side, rank in (("Sender", 0), ("Receiver", 1)):
            cls = base + side
            R = Order(rank)
            I, outs = analyse(p, R, fn(p, "psi::AbstractPsiParty::Run"), cls)
            for r, s, msg, w, ch in R.bad:
                cx.fail(r, cls.rpartition("::")[2] + " " + s, msg, w, [ch])
            phases += len([x for x in R.seen if x in DO])
            if "compared" not in R.seen:
                cx.fail("agreement before the protocol", cls.rpartition("::")[2], "the configurations are never compared", "psi/interface.cc")
            for x in R.seen:
                cx.ok("agreement before the protocol", cls.rpartition("::")[2] + " " + x)
    cx.floor("protocol phases reached", phases, 12)
    # ---- ECDH
    f = fn(p, "psi::ecdh::EcdhPsiContext::CheckConfig")
    for rank in (0, 1):
        R = Ecdh(rank)

        def setup(I, st):
            st.store[SELF + ("options_", "target_rank")] = I.fresh("target", frozenset(["target_rank"]))
        I, outs = analyse(p, R, f, "psi::ecdh::EcdhPsiContext", setup)
        for q in ("target_rank", "curve"):
            cx.check(outs and all(("eq", q) in st.facts for st, _ in outs), "ECDH parameters", q,
                     "CheckConfig returns without the parties' %s having been found equal" % q, "%s:%d" % (f.file, f.line))
    n = 0
    rs = []
    for f in p.byname.get("psi::ecdh::RunEcdhPsi", ()):
        R = Before("RunEcdhPsi")
        analyse(p, R, f)
        rs.append(R)
    for rank in (0, 1, 2):
        R = Before("PartnersPsiImpl", rank, 3)

        def setup(I, st, rank=rank):
            st.store[SELF + ("options_", "master_rank")] = I.cst(2)
        I, outs = analyse(p, R, fn(p, "psi::ecdh::ShuffleEcdh3PcPsi::PartnersPsiImpl"), None, setup)
        rs.append(R)
    for R in rs:
        for r, s, msg, w, ch in R.bad:
            cx.fail(r, s, msg, w, [ch])
        for x in R.seen:
            n += x != "CheckConfig"
            cx.ok("parameters checked first", R.site + " " + x)
    cx.floor("exchanges after the parameter check", n, 5)

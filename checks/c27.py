"""C27 differentially private PSI: what leaves a party has been subsampled, up-sampled and reordered with secure randomness."""
from prog import AnalysisError, fn_nodes, visit
from ai import AV, RV, E0
from flow import *
from c05 import fn
import models
from runner import analyse, SELF

N = "psi::dp_psi::"
RATES = {"p1", "p2", "q"}
SECURE = "secure"
PUSH = {"push_back", "emplace_back", "insert", "emplace", "push_front"}


class R(Flow):
    K = 12
    async_eager = True
    sizelab = True
    inline_max = 14

    def __init__(self):
        Flow.__init__(self)
        self.bad, self.seen, self.pol, self.rate_terms, self.ifs = [], {}, {}, set(), set()

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/algorithm/ecdh/", "psi/cryptor/")) or fn.f.endswith("CreateEccCryptor")

    def rep(self, I, n, rule, msg):
        if not I.dry:
            self.bad.append((rule, msg, I.where(n), I.chain()))

    def base(self, I, t):
        while I.T.tab[t][0] == "narrow":
            t = I.T.tab[t][2]
        return t

    def scope(self, I):
        return I.fr.id, I.loops[-1] if I.loops else 0

    def polarity(self, I, t, d=6):
        """Whether this term being true means that the item was found among the peer's (None: it says nothing about that)."""
        if t in self.pol:
            return self.pol[t]
        k = I.T.tab[t]
        if d and k[0] == "!":
            r = self.polarity(I, k[1], d - 1)
            return None if r is None else not r
        if d and k[0] in ("==", "<"):
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if x in self.pol:
                    c, v = I.T.const(y)
                    if k[0] == "==":
                        return False if not c or v in (0, False) else True
                    return x == k[2] if c else None
        return None

    def branch(self, I, st, n, taken):
        rv = getattr(I, "branch_rv", None)
        if rv is not None and id(n) in self.ifs and "match" in self.deep(I, st, [rv]):
            st.add(("exact",))
        if rv is not None and DUAL in self.deep(I, st, [rv]):
            pol = self.polarity(I, rv.av.t)
            if pol is not None:
                st.facts = frozenset(x for x in st.facts if x[0] not in ("kept", "found") or x[1:3] != self.scope(I)) | {("found",) + self.scope(I) + (pol == taken,)}

    def relabel(self, lab, add):
        return frozenset(x + "~" + "+".join(add) if x in ("item", "match", "nonmatch") and add else x for x in lab)

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if b.startswith("yacl::crypto::SecureRand"):
            return V((SECURE,), why="seed")
        if b == "yacl::DecomposeUInt128":
            lab = self.deep(I, st, args)
            return V(lab, {"first": lab, "second": lab})
        if "mersenne_twister" in cls or cls.endswith(("linear_congruential_engine", "YaclReplayUrbg", "YaclStdUrbg", "random_device")) or "mt19937" in cls:
            if n["k"] == "ctor" or m.rpartition("<")[0] == cls.rpartition("::")[2]:
                return V(self.deep(I, st, args) | ({SECURE} if "YaclStdUrbg" in cls else E0), why="gen")
        if "bernoulli_distribution" in cls:
            if n["k"] == "ctor":
                lab = self.deep(I, st, args) & RATES
                if lab and args and self.base(I, args[0].av.t) not in self.rate_terms:
                    lab = frozenset("altered " + x for x in lab)
                return V(lab, why="dist")
            if m.startswith("operator()"):
                rate = frozenset(x for x in self.deep(I, st, [obj]) if x in RATES or x.startswith("altered "))
                if SECURE not in self.deep(I, st, args):
                    self.rep(I, n, "sampling uses secure randomness", "the sampling decision is not drawn from a generator seeded by the secure generator")
                self.seen["sampled"] = 1
                out = []
                st.facts = frozenset(x for x in st.facts if x[0] not in ("kept", "found") or x[1:3] != self.scope(I))
                for v in (True, False):
                    s2 = st.copy()
                    if v:
                        s2.add(("kept",) + self.scope(I) + (tuple(sorted(rate)),))
                    out.append((s2, RV(I.cst(v), None)))
                return out
        if b in ("std::binary_search", "std::find", "std::lower_bound") or m in ("count", "contains", "find") and obj is not None and len(args) == 1:
            xs = args + ([obj] if obj is not None else [])
            lab = self.deep(I, st, xs)
            if DUAL in lab:
                r = V(lab, why="search")
                self.pol[r[0][1].av.t] = True
                return r
        if m == "operator==" and DUAL in self.deep(I, st, args + ([obj] if obj is not None else [])) and not any(x.av.t in self.pol for x in args + ([obj] if obj is not None else [])):
            r = V((DUAL,), why="same")
            self.pol[r[0][1].av.t] = True
            return r
        if m in PUSH and len(args) == 1:
            f = [x for x in st.facts if x[0] == "found" and x[1:3] == self.scope(I)]
            k = [x for x in st.facts if x[0] == "kept" and x[1:3] == self.scope(I)]
            if obj is not None and obj.loc is not None:
                lab = frozenset(self.deep(I, st, args)) | frozenset("match" if x[3] else "nonmatch" for x in f)
                lab = self.relabel(lab, k[0][3] if k else ())
                for l in ([obj.loc] if obj.loc is not None else []):
                    e = l + ("[]",)
                    old = st.store.get(e)
                    kind = lambda s: {x.partition("~")[0] for x in s} & {"match", "nonmatch"}
                    if not f and not k and old is not None and kind(lab) - kind(old.lab) and kind(old.lab):
                        lab |= {ORD}
                    st.store[e] = I.fresh("el", (old.lab if old is not None else E0) | lab)
                    a = I.rd(st, l)
                    st.store[l] = I.fresh("vec", a.lab | lab)
                    st.store[l + ("@size",)] = I.fresh("size", a.lab | lab)
                return V()
        if m in ("operator[]", "at") and len(args) == 1 and obj is not None and "shuffled" in args[0].av.lab:
            return V(self.deep(I, st, [obj]) | {"shuffled"}, why="el")
        if m == "insert" and len(args) == 3 and obj is not None and obj.loc is not None:
            e = obj.loc + ("[]",)
            lab = I.rd(st, e).lab | self.deep(I, st, args[1:]) | I.rd(st, obj.loc).lab | {ORD}
            st.store[e] = I.fresh("el", lab)
            st.store[obj.loc] = I.fresh("vec", lab)
            st.store[obj.loc + ("@size",)] = I.fresh("size", lab)
            return V()
        if b in ("std::shuffle", "std::sort", "std::stable_sort") and len(args) >= 2 and not self.whole(I, args):
            return V()
        if b in ("std::shuffle",) and len(args) >= 3:
            g = self.deep(I, st, args[2:3])
            for l in args[0].av.ref:
                base = l[:-1] if l[-1:] == ("[]",) else l
                self.strip_order(I, st, base)
                lab = I.rd(st, base + ("[]",)).lab | I.rd(st, base).lab
                if SECURE in g:
                    lab = (lab - {ORD}) | {"shuffled"}
                st.store[base + ("[]",)] = I.fresh("el", lab)
            return V()
        if b == "std::iota":
            return V()
        if cls.startswith(("psi::ecdh::",)) and m in ("MaskSelf", "MaskSendSelf"):
            lab = self.deep(I, st, args)
            self.seen["masked"] = 1
            self.mask_self(I, st, n, lab)
            return V()
        if cls.startswith("psi::ecdh::") and m in ("MaskPeer", "MaskRecvPeer", "RecvDupMasked", "RecvItems", "RecvDualMaskedSelf"):
            lab = frozenset([DUAL, ORD])
            for a in args:
                for l in a.av.ref:
                    for k, v in list(I.subs(st, l)):
                        if k[-1] not in ("@cls",):
                            del st.store[k]
                    st.store[l] = I.fresh("peer", lab)
            return V()
        if cls.startswith("psi::ecdh::") and m in ("SendItems", "SendDupMasked"):
            lab = self.deep(I, st, args)
            self.seen["returned"] = 1
            if ORD in lab:
                self.rep(I, n, "doubly masked items are returned in no particular order", "the peer's items are returned in the order it sent them, so it learns which of its items match")
            return V()
        if cls == LINK and m in SEND:
            lab = set(self.deep(I, st, args[1:2]))
            self.seen.setdefault("sends", []).append(lab)
            hit = sorted(lab & {"match", "nonmatch", "item"})
            if hit:
                self.rep(I, n, "only sampled values are sent", "a value is sent that depends on %s without having been sampled" % " and ".join({"match": "the matching items", "nonmatch": "the items that do not match", "item": "the input items"}[x] for x in hit))
            for x in lab:
                if x.startswith("match~") and x != "match~p2":
                    self.rep(I, n, "sampled at the configured rate", "the matching items are sampled at rate %s instead of p2" % x[6:])
                if x.startswith("nonmatch~") and x != "nonmatch~q":
                    self.rep(I, n, "sampled at the configured rate", "the items that do not match are sampled at rate %s instead of q" % x[9:])
            s = {x.partition("~")[0] for x in lab}
            if "match" in s:
                st.add(("noisy sent",))
            if "nonmatch" in s and "match" not in s:
                self.rep(I, n, "matches are hidden among other items", "items that do not match are sent apart from the matching ones, so the recipient can tell them apart")
            if "match" in s and "nonmatch" not in s:
                self.rep(I, n, "matches are hidden among other items", "matching items are sent without items that do not match mixed in")
            if ORD in lab and "match" in s:
                self.rep(I, n, "matches are hidden among other items", "the items mixed in are sent after the matching ones, so the order tells which is which")
            return V()
        return None

    def mask_self(self, I, st, n, lab):
        pass


class Bob(R):
    def mask_self(self, I, st, n, lab):
        it = sorted(x for x in lab if x.partition("~")[0] == "item")
        if "item" in it or not it:
            self.rep(I, n, "the sender's items are subsampled", "items are masked and sent that have not been subsampled")
        elif it != ["item~p1"]:
            self.rep(I, n, "sampled at the configured rate", "the sender's items are sampled at rate %s instead of p1" % it)
        elif "shuffled" not in lab:
            self.rep(I, n, "the sender's items are shuffled", "the sender's items are masked and sent in their own order")


def run(cx):
    p = cx.prog(scope=("psi/legacy/dp_psi/",))
    cx.rule("information flow over both roles of the differentially private protocol: labels say which list an index came from (matching, not matching), whether a Bernoulli draw of which rate selected it, "
            "and whether order is left; every send and every masking call is judged by the labels that reach it")
    cx.trust("std::bernoulli_distribution, std::shuffle and std::sort", "the masking calls of the ECDH code")
    wh = lambda f: "%s:%d" % (f.file, f.line)
    al, bo = fn(p, N + "RunDpEcdhPsiAlice"), fn(p, N + "RunDpEcdhPsiBob")
    for f, r, who in ((al, R(), "receiver"), (bo, Bob(), "sender")):
        ps = {}
        for q in f.d["ps"]:
            s = f.T[q["t"]].get("s", "")
            if "DpPsiOptions" in s:
                ps["opt"] = q["n"]
            elif "basic_string" in s or "std::string" in s:
                ps["items"] = q["n"]
        if len(ps) != 2:
            raise AnalysisError("parameters of %s not understood" % f.f)

        def setup(I, st):
            for x in RATES:
                st.store[(("p", ps["opt"]), x)] = I.fresh(x, frozenset([x]))
                r.rate_terms.add(st.store[(("p", ps["opt"]), x)].t)
            st.store[(("p", ps["items"]), "[]")] = I.fresh("item", frozenset(["item"]))
        for g in p.fns.values():
            for x in fn_nodes(g):
                if x["k"] in ("if", "cond"):
                    r.ifs |= {id(y) for y in visit(x["c"])} | {id(x)}
        I, outs = analyse(p, r, f, None, setup)
        for rule, msg, w, ch in r.bad[:6]:
            cx.fail(rule, who, msg, w, [ch])
        if not outs:
            raise AnalysisError("no path through %s" % f.f)
        cx.check("sampled" in r.seen, "sampled at the configured rate", who, "nothing is sampled", wh(f))
        cx.check("masked" in r.seen, "items are masked", who, "the items are not masked", wh(f))
        if who == "sender":
            cx.check("returned" in r.seen, "doubly masked items are returned in no particular order", who, "the peer's items are not returned", wh(f))
            for x in ("the sender's items are subsampled", "sampled at the configured rate", "the sender's items are shuffled", "sampling uses secure randomness"):
                cx.ok(x, who) if (x, who) not in cx.obl else None
        else:
            ls = [x for x in r.seen.get("sends", []) if any(y.startswith("match") for y in x)]
            cx.check(len(ls) >= 2, "only sampled values are sent", who + " sends", "the sampled indices or their number are not sent", wh(f))
            for x in ("only sampled values are sent", "sampled at the configured rate", "matches are hidden among other items", "sampling uses secure randomness"):
                cx.ok(x, who) if (x, who) not in cx.obl else None
            for st, rv in outs:
                cx.check(("exact",) not in st.facts or ("noisy sent",) in st.facts, "only sampled values are sent", who + " early end",
                         "what is sent (or that nothing is sent) depends on the exact number of matching items", wh(f))
                lab = set(I.deep(st, rv)) & {"match", "nonmatch"}
                cx.check(not lab, "the size reported is the noisy one", who, "the receiver's own result is the exact size of the intersection", wh(f))
    # the rates follow from the privacy budget
    g = [x for x in p.fns.values() if x.cls == N + "DpPsiOptions" and x.d.get("ctor") and len(x.d["ps"]) == 2]
    if len(g) != 1:
        raise AnalysisError("constructor of DpPsiOptions not found")
    g = g[0]
    a, e = [q["n"] for q in g.d["ps"]]

    class C(Flow):
        def special(self, I, st, n, b, cls, m, obj, args):
            if m in ("exp", "pow") and not b.startswith("psi"):
                return self.val(I, st, self.deep(I, st, args), why="exp")

    def setup(I, st):
        st.store[(("p", a),)] = I.fresh("p1", frozenset(["rate"]))
        st.store[(("p", e),)] = I.fresh("eps", frozenset(["budget"]))
    I, outs = analyse(p, C(), g, None, setup)
    for st, _ in outs:
        for x, l in (("p1", "rate"), ("p2", "budget"), ("q", "budget")):
            cx.check(l in I.rd(st, SELF + (x,)).lab, "rates follow the configured budget", x, "the sampling rate %s does not depend on the configured %s" % (x, "rate" if l == "rate" else "privacy budget"), wh(g))
    cx.floor("obligations checked", len(cx.obl), 12)

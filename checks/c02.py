"""C02 items leave a party only under a mask the recipient cannot remove (KKRT, OKVS, server-aided, DP and keyword-PIR protocols)."""
from prog import AnalysisError
from ai import AV, RV, E0
from flow import *
from c05 import fn
import models
from runner import analyse, SELF

PAD, MATCH = "pad", "matched"        # PAD: pseudo-random values unknown to the other side; "key:…": encrypted under that key


def keyed(lab):
    return any(x == PAD or x.startswith("key:") for x in lab if isinstance(x, str))


class R(Flow):
    K = 6
    async_eager = True

    def __init__(self):
        Flow.__init__(self)
        self.shared = []        # (key label, destination)
        self.used = set()

    def xor(self, lab):
        return frozenset(x for x in lab if x != RAW) if keyed(lab) else lab

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/checkpoint/", "psi/utils/arrow", "psi/utils/batch", "psi/utils/table", "psi/utils/csv", "psi/utils/trace", "psi/utils/cuckoo", "psi/utils/hash_bucket",
                                   "psi/algorithm/rr22/okvs", "psi/algorithm/rr22/davis")) or fn.f.endswith(("AllGatherItemsSize", "ExchangeTruncateSize", "ExchangeSetSize"))

    def fill(self, I, st, a, lab, parts=None):
        """Replace what a span, vector or pointer argument holds."""
        ls = list(a.av.ref)
        if a.loc is not None and (a.loc + ("[]",) in st.store or not ls):
            ls.append(a.loc)
        for l in ls:
            base = l[:-1] if l[-1:] == ("[]",) else l
            for k in [k for k in st.store if k[:len(base)] == base and len(k) > len(base) and k[len(base)] == "[]"]:
                del st.store[k]
            st.store[base + ("[]",)] = I.fresh("el", frozenset(lab))
            x = st.store.get(base)
            if x is not None and RAW in x.lab:
                st.store[base] = AV(x.t, frozenset(lab), x.ref, x.clo)

    def write(self, I, st, loc, rv, n):
        """x[i] = x[i] ^ pad in a loop over the elements replaces them."""
        if loc[-1:] != ("[]",) or not isinstance(n, dict) or n.get("k") not in ("assign", "opcall") or RAW in rv.av.lab or not keyed(rv.av.lab):
            return
        if not (I.loopdepth or I.loops or getattr(I, "async_depth", 0)):
            return
        a = st.store.get(loc)
        if a is not None and RAW in a.lab:
            st.store[loc] = AV(a.t, rv.av.lab, a.ref, a.clo)
            p = st.store.get(loc[:-1])
            if p is not None and RAW in p.lab:
                st.store[loc[:-1]] = AV(p.t, p.lab - {RAW}, p.ref, p.clo)

    def recv_labels(self, I, st, n, obj, args):
        return frozenset([PEER, "from:%s" % self.dest(I, st, obj, args[0])]) if args and obj is not None else frozenset([PEER])

    def record(self, I, st, n, dst, args, tag=None):
        lab = self.deep(I, st, args)
        for x in lab:
            if x.startswith("new:"):
                self.shared.append(("key:" + x[4:], dst, I.where(n)))
        Flow.record(self, I, st, n, dst, args, tag)

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        d = lambda xs: self.deep(I, st, xs)
        if b.startswith(("yacl::crypto::SecureRand", "yacl::crypto::RandU", "yacl::crypto::RandSeed", "yacl::crypto::RandBits")):
            return V(("new:%s:%d" % (self.fname(I), n["l"]),), why="rnd")
        if b.endswith("AllGatherItemsSize") or b.endswith("ExchangeSetSize"):
            return V()
        if b.endswith("ExchangeTruncateSize"):
            return None
        # silent VOLE correlations
        if "SilentVole" in cls:
            if m in ("Send", "SfSend", "Recv", "SfRecv"):
                for a in args[1:]:
                    self.fill(I, st, a, (PAD,))
                return V()
            if m == "GetDelta":
                return V((PAD,))
            return None
        # OKVS
        if cls.endswith(("okvs::Baxos", "okvs::Paxos")):
            if m == "Solve" and len(args) >= 3:
                self.used.add("okvs")
                self.fill(I, st, args[2], d(args[1:2]))
                return V()
            if m in ("EncodeU64", "Encode") and len(args) >= 2:
                self.used.add("okvs")
                self.fill(I, st, args[1], d(args[:1]))
                return V()
            if m in ("Decode", "DecodeU64") and len(args) >= 3:
                self.fill(I, st, args[1], self.xor(d(args[:1]) | d(args[2:3])) if PAD in d(args[2:3]) else d(args[2:3]))
                return V()
            if m == "size":
                return V()
            return None
        if cls.endswith("AesCrHash") and m == "Hash":
            if len(args) == 2:
                self.fill(I, st, args[1], d(args[:1]))
                return V()
            return V(d(args))
        if m == "DavisMeyerHash" and len(args) == 3:
            self.fill(I, st, args[2], d(args[:1]))
            return V()
        if cls.endswith("Galois128"):
            lab = d(args) | (d([obj]) if obj is not None else E0)
            if m in ("Galois128", "get", "operator*", "operator^", "operator*=", "Mul"):
                lab = self.xor(lab)
                if obj is not None and obj.loc is not None and m in ("Galois128",):
                    st.store[obj.loc] = I.fresh("g", lab)
                return V(lab)
            return None
        if b.endswith("cc_gf128Mul"):
            return V(self.xor(d(args)))
        # KKRT oblivious transfer
        if cls.endswith("KkrtOtExtSender") or cls.endswith("KkrtOtExtReceiver"):
            if m == "Encode" and len(args) >= 3:
                self.used.add("oprf")
                self.fill(I, st, args[2], (PAD,))
                return V()
            if m in ("ShiftCorrection",):
                self.used.add("oprf")
                return V((PAD,))
            if m in ("ZeroEncode", "Init", "SetBatchSize", "SetCorrection", "GetBatchSize"):
                return V()
            return None
        if b.startswith("yacl::crypto::") and m.startswith(("BaseOt", "IknpOt")):
            return V()
        # AES
        if m in ("AES_set_encrypt_key", "AES_set_decrypt_key") and len(args) == 2:
            k = {("key:" + x[4:]) if x.startswith("new:") else ("key:peer:" + x[5:] if x.startswith("from:") else x) for x in d(args[:1]) if x != PEER}
            for l in args[1].av.ref or ():
                st.store[l] = I.fresh("key", frozenset(k))
            return V()
        if m in ("AES_ecb_encrypt_blks", "AES_ecb_encrypt") and len(args) == 3:
            k = {x for x in d(args[:1]) if x.startswith("key:")}
            lab = d(args[1:2])
            self.used.add("prf")
            self.fill(I, st, args[2], {x for x in lab if x != RAW} | k if k else lab)
            return V()
        if m in ("AES_ecb_decrypt_blks", "AES_ecb_decrypt") and len(args) == 3:
            self.fill(I, st, args[2], (MATCH,))
            return V()
        # lookup
        if m == "find" and obj is not None and ("dense_hash_map" in cls or "unordered_map" in cls) and args:
            l = I.tmp("found")
            st.store[l + ("first",)] = I.fresh("first", frozenset([MATCH]))
            st.store[l + ("second",)] = I.fresh("second", frozenset([MATCH]))
            return [(st, RV(AV(I.T.fresh("found"), frozenset([MATCH]), (l,), ()), None))]
        if m in ("at", "operator[]") and obj is not None and args and MATCH in args[0].av.lab:
            return V({MATCH} | {x for x in d([obj]) if x != RAW})
        if b.endswith("CreateP2PLinkCtx"):
            c, v = I.isc(args[-1].av)
            return [(st, self.link(I, st, v if c else "another party"))]
        if m in ("at", "operator[]") and obj is not None and obj.loc is not None and obj.loc[-1:] in (("p2p_",), ("p2p",)) and args:
            c, v = I.isc(args[0].av)
            return [(st, self.link(I, st, v if c else "another party"))]
        if cls == "std::function" and m == "operator()" and obj is not None and obj.loc is not None and obj.loc[-1:] == ("pre_f_",):
            r = V(why="items")
            l = r[0][1].loc
            st.store[l + ("[]", "base64_data")] = I.fresh("data", frozenset([RAW]))
            st.store[l + ("[]", "extra_dup_cnt")] = I.fresh("cnt", frozenset([DUP]))
            return r
        # group elements of the keyword PIR request
        if b.endswith("MakeRandomNonzeroScalar") and args:
            self.used.add("scalar")
            for l in ([args[0].loc] if args[0].loc is not None else []) + list(args[0].av.ref):
                st.store[l] = I.fresh("scalar", frozenset([PAD]))
            return V()
        if cls.endswith("apsi::oprf::ECPoint"):
            ls = ([obj.loc] if obj is not None and obj.loc is not None else []) + (list(obj.av.ref) if obj is not None else [])
            if m == "ECPoint":
                return V(d(args))
            if m == "scalar_multiply" and args:
                self.used.add("oprf")
                k = d(args[:1])
                for l in ls:
                    a = I.rd(st, l)
                    st.store[l] = AV(I.T.fresh("pt"), frozenset(x for x in a.lab if x != RAW or PAD not in k), (), ())
                return V()
            if m == "save" and args:
                self.record(I, st, n, "the server", [obj] if obj is not None else [])
                return V()
        if b == "psi::PsiDataBatch::Serialize" and obj is not None:
            return V(d([obj]))
        if b == "psi::PsiDataBatch::Deserialize" and args:
            return V(d(args))
        return None

    def link(self, I, st, v):
        l = (("h", 0, v, "p2p"),)
        st.store[l + ("@cls",)] = I.cst(LINK)
        st.store[l + ("@peer",)] = I.cst(v)
        return RV(AV(I.T.mk("&", l), E0, (l,), ()), None)


def run(cx):
    p = cx.prog(scope=("psi/algorithm/kkrt/", "psi/algorithm/rr22/", "psi/algorithm/nty/", "psi/algorithm/dkpir/", "psi/legacy/"))
    cx.rule("every value computed from an input item carries the label 'item' until it is combined with a pad (VOLE output, OT-extension output, blinding scalar, block cipher under a fresh or shared key) or is stored as an OKVS "
            "whose values are pseudo-random; no network send on any path may carry the label, nor data encrypted under a key that was sent to the same destination; the result itself may be sent when it is broadcast")
    cx.trust("yacl VOLE, OT extension, AES and curve arithmetic hide their inputs", "an OKVS hides its keys when its values are pseudo-random", "element-wise loops cover the container they rewrite")
    nsend = 0
    wh = lambda f: "%s:%d" % (f.file, f.line)

    def judge(r, what, f, need=None, least=1):
        nonlocal nsend
        nsend += len(r.sends)
        for fname, w, dst, lab, ch, tag in r.sends:
            site = "%s sends in %s" % (fname, what)
            cx.check(RAW not in lab | tag, "items are masked", site, "data computed from the input items is sent without a mask (%s)" % what, w, [ch])
            keys = {x for x in lab if x.startswith("key:")}
            if keys and PAD not in lab and dst not in (None, "all", "another party"):
                known = {k for k in keys if k == "key:peer:%s" % dst or any(k == x and dst == to for x, to, _ in r.shared)}
                cx.check(known != keys, "mask is unknown to the recipient", site, "data masked only under keys the recipient holds is sent to it", w, [ch])
        if need:
            cx.check(need in r.used, "masking takes place", what, "no path of %s applies the masking step of the protocol" % what, wh(f))
        if len(r.sends) < least:
            raise AnalysisError("no send found in %s" % what)

    N = "psi::rr22::"
    en = {x["n"].rpartition("::")[2]: x["v"] for k in p.enums if k.endswith("Rr22PsiMode") for x in p.enums[k]["v"]}
    for side, o in (("Receiver", "oprf_receiver_"), ("Sender", "oprf_sender_")):
        cls = N + "BucketRr22" + side
        ms = [fn(p, cls + "::" + m) for m in ("Prepare", "RunOprf", "GetIntersection")]
        for mode in sorted(en):
            for mal in (False, True):
                if mal and mode != "FastMode":
                    continue
                for bc in (False, True):
                    def setup(I, st):
                        st.store[SELF + (o, "mode_")] = I.cst(en[mode])
                        st.store[SELF + (o, "malicious_")] = I.cst(mal)
                        st.store[SELF + ("broadcast_result_",)] = I.cst(bc)
                        st.store[SELF + ("null_bucket_",)] = I.cst(False)
                    r = R()
                    sequence(p, r, ms, cls, setup)
                    judge(r, "OKVS %s, %s%s%s" % (side.lower(), mode, ", malicious" if mal else "", ", broadcast" if bc else ""), ms[1], "okvs" if side == "Receiver" else None)
    # the same transfer on hashes
    for name in ("KkrtPsiSend", "KkrtPsiRecvIndices"):
        for f in [f for f in p.byname.get("psi::kkrt::" + name, []) if f.d.get("body")]:
            items = [q["n"] for q in f.d["ps"] if q["n"].startswith("items")]
            if not items:
                raise AnalysisError("parameters of %s not understood" % f.f)

            def setup(I, st):
                l = (("p", items[0]),)
                if name == "KkrtPsiSend":
                    st.store[l + ("[]", "data")] = I.fresh("d", frozenset([RAW]))
                    st.store[l + ("[]", "cnt")] = I.fresh("c", frozenset([DUP]))
                else:
                    st.store[l + ("[]",)] = I.fresh("d", frozenset([RAW]))
            r = R()
            analyse(p, r, f, None, setup)
            judge(r, name, f, "oprf")
    # server-aided protocol
    for m, world in (("ThreePartyPsi", 3), ("MultiPartyPsi", 4)):
        f = fn(p, "psi::nty::NtyMPsi::" + m)
        for rank in range(world):
            for bc in (False, True):
                def setup(I, st):
                    q = SELF + ("options_",)
                    st.store[q + ("broadcast_result",)] = I.cst(bc)
                    for i, x in enumerate(("aided_server_rank", "helper_rank", "receiver_rank")):
                        st.store[q + (x,)] = I.cst(i)
                    st.store[(("p", f.d["ps"][0]["n"]), "[]")] = I.fresh("d", frozenset([RAW]))
                r = R()
                r.rank, r.world = rank, world
                analyse(p, r, f, None, setup)
                judge(r, "%s, rank %d%s" % (m, rank, ", broadcast" if bc else ""), f, "prf")
    # differentially private PSI
    for name in ("RunDpEcdhPsiAlice", "RunDpEcdhPsiBob"):
        f = fn(p, "psi::dp_psi::" + name)
        items = [q["n"] for q in f.d["ps"] if q["n"].startswith("items")]
        r = R()
        analyse(p, r, f, None, None, args={items[0]: lambda I, st: r.val(I, st, {RAW}, why="items")[0][1]})
        judge(r, name, f)
        cx.check(any(MASK in x[3] or DUAL in x[3] for x in r.sends), "masking takes place", name, "no blinded items are sent", wh(f))
    # keyword PIR request
    f = fn(p, "psi::dkpir::ShuffledOPRFReceiver::process_items")
    r = R()
    I, outs = analyse(p, r, f, None, None, args={f.d["ps"][0]["n"]: lambda I, st: r.val(I, st, {RAW}, why="items")[0][1]})
    judge(r, "keyword PIR request", f)
    cx.check({"scalar", "oprf"} <= r.used, "masking takes place", "keyword PIR request", "the points are not multiplied by a random scalar", wh(f))
    cx.floor("sends analysed", nsend, 25)

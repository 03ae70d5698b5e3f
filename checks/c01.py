"""C01 ECDH PSI: blinded items go only to parties entitled to the result."""
from prog import AnalysisError
from ai import AV, RV, E0
from flow import *
from runner import analyse, SELF
from loops import counting, const, unwrap
from prog import visit

D = "psi/algorithm/ecdh/"
NS = "psi::ecdh::"


class R2(Flow):
    K = 4

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/checkpoint/", "psi/cryptor/", "psi/utils/ec_point_store", "psi/utils/hash_bucket", "psi/utils/multiplex", "psi/utils/arrow", "psi/utils/batch_provider_impl", "psi/utils/trace", "psi/algorithm/ecdh/ecdh_logger"))

    def special(self, I, st, n, b, cls, m, obj, args):
        if b == "psi::PsiDataBatch::Serialize" and obj is not None:
            return self.val(I, st, self.deep(I, st, [obj]), why="msg")
        if b == "psi::PsiDataBatch::Deserialize" and args:
            return self.val(I, st, self.deep(I, st, args), why="msg")


def fn(p, name, sig=None):
    fs = [f for f in p.byname.get(name, []) if f.d.get("body") and (sig is None or sig(f))]
    if len(fs) != 1:
        raise AnalysisError("%d functions named %s" % (len(fs), name))
    return fs[0]


def judge(cx, r, what, selfok, peerok, peer, wh, need=True):
    bad = {}
    for f, w, dst, lab, ch, tag in r.sends:
        lab = lab | tag
        site = "%s sends to %s in %s" % (f, "the peer" if dst in (peer, "all") else dst, what)
        hit = []
        if RAW in lab:
            hit.append((RAW, "unblinded items"))
        if not peerok and DUAL in lab:
            hit.append((DUAL, "doubly blinded items to a party not entitled to the result"))
        if not peerok and DUP in lab:
            hit.append((DUP, "duplicate counts to a party not entitled to the result"))
        if IDX in lab:
            hit.append((IDX, "row indices"))
        for k, t in hit:
            cx.fail("disclosure", "%s: %s" % (site, k), "sends %s (%s)" % (t, what), w, [ch])
        if not hit:
            cx.ok("disclosure", site)
    for f, w, lab, ch in r.saves:
        site = "%s stores in %s" % (f, what)
        cx.check(selfok or not (lab & {DUAL, PEER}), "storage", site, "stores the other side's blinded items although this party is not entitled to the result (%s)" % what, w, [ch])
    if need:
        got = any(MASK in lab for _, _, _, lab, _, _ in r.sends)
        cx.check(got, "liveness", "%s: own blinded items are sent" % what, "no path sends this party's blinded items (%s)" % what, wh)
        if peerok:
            got = any(DUAL in lab for _, _, _, lab, _, _ in r.sends)
            cx.check(got, "liveness", "%s: entitled peer is answered" % what, "no path sends the doubly blinded items to the entitled peer (%s)" % what, wh)
        if selfok:
            cx.check(any(lab & {DUAL} for _, _, lab, _ in r.saves), "liveness", "%s: peer items are kept" % what, "no path stores the peer's doubly blinded items for the comparison (%s)" % what, wh)
            cx.check(any(lab & {PEER} for _, _, lab, _ in r.saves), "liveness", "%s: answers are kept" % what, "no path stores the answers of the peer (%s)" % what, wh)


def run(cx):
    p = cx.prog(scope=(D,))
    cx.rule("labels (item, masked item, peer item, doubly masked item, duplicate count, row index) propagated from item readers and Recv through hashing, masking, batching and serialisation to every "
            "network send and point-store write, for every role, rank, broadcast and recovery valuation; a send or store is allowed only if the role and broadcast setting entitle the party")
    cx.trust("EccMask blinds, HashInputs does not", "links deliver only to the addressed rank")
    nsend = 0
    for side in ("Receiver", "Sender"):
        cls = NS + "EcdhPsi" + side
        pre, onl = fn(p, cls + "::PreProcess"), fn(p, cls + "::Online")
        for bc in (False, True):
            for rank in (0, 1):
                for rec in (False, True):
                    r = R2()
                    r.rank = rank

                    def setup(I, st):
                        st.store[SELF + ("config_", "protocol_config", "broadcast_result")] = I.cst(bc)
                        if rec:
                            l = (("h", 0, 0, "recovery"),)
                            st.store[l + ("@cls",)] = I.cst("psi::RecoveryManager")
                            st.store[SELF + ("recovery_manager_",)] = AV(I.T.mk("&", l), E0, (l,), ())
                        else:
                            st.store[SELF + ("recovery_manager_",)] = I.cst(0)
                        st.store[SELF + ("digest_equal_",)] = I.cst(False)
                    sequence(p, r, [pre, onl], cls, setup)
                    what = "%s, broadcast %s, rank %d%s" % (side.lower(), "on" if bc else "off", rank, ", recovery" if rec else "")
                    nsend += len(r.sends)
                    judge(cx, r, what, side == "Receiver" or bc, side == "Sender" or bc, 1 - rank, "%s:%d" % (onl.file, onl.line))
    # the in-memory entry and the operator take the target rank from their caller
    mem = fn(p, NS + "RunEcdhPsi", lambda f: len(f.d["ps"]) > 4)
    op = [fn(p, NS + "EcdhOperator::" + m) for m in ("OnInit", "OnRun", "OnEnd")]
    for rank in (0, 1):
        for tgt, tn in ((rank, "self"), (1 - rank, "peer"), (ALLRANK, "all")):
            r = R2()
            r.rank = rank
            analyse(p, r, mem, None, args={"target_rank": lambda I, st: RV(I.cst(tgt), None),
                                           "items": lambda I, st: r.val(I, st, {RAW}, why="items")[0][1]})
            nsend += len(r.sends)
            judge(cx, r, "in-memory run, target %s, rank %d" % (tn, rank), tgt != 1 - rank, tgt != rank, 1 - rank, "%s:%d" % (mem.file, mem.line))
            r = R2()
            r.rank = rank

            def setup(I, st):
                st.store[SELF + ("opts_", "target_rank")] = I.cst(tgt)
            sequence(p, r, op, NS + "EcdhOperator", setup)
            nsend += len(r.sends)
            judge(cx, r, "operator, target %s, rank %d" % (tn, rank), tgt != 1 - rank, tgt != rank, 1 - rank, "%s:%d" % (op[1].file, op[1].line))
    nsend += three(cx, p)
    batches(cx, p)
    cx.floor("sends analysed", nsend, 16)


class Batches(R2):
    """Every batch that is read or received is answered, and answered with every element."""
    K = 8
    ADD = ("emplace_back", "push_back", "append", "insert", "emplace", "operator+=", "Save")

    def __init__(self, owe, pay):
        R2.__init__(self)
        self.owe, self.pay = owe, pay
        self.late, self.loops, self.bare = {}, {}, {}

    def ask(self, I, st, n):
        if ("owed",) in st.facts and not I.dry:
            self.late[I.where(n)] = I.chain()
        st.facts = st.facts - {("done",)} | {("owed",)}

    def call(self, I, st, n, f, obj, args):
        import models
        b = models.strip(f)
        cls, _, m = b.rpartition("::")
        if m in self.ADD and args:
            lab = self.deep(I, st, args)
            if lab & {MASK, DUAL, PEER}:
                kind = "stored" if m == "Save" else "collected"
                st.facts = st.facts | {(kind, i) for i in I.loops}
        if m in self.owe and (cls == LINK or "Provider" in cls):
            self.ask(I, st, n)
        if self.pay == "send" and cls == LINK and m in SEND and args:
            if not I.dry:
                lab = self.deep(I, st, args[1:2])
                if MASK in lab and DUP not in lab and not self.empties(I, st):
                    self.bare[I.where(n)] = I.chain()
            st.facts = st.facts - {("owed",)}
        if self.pay == "save" and m == "Save":
            st.facts = st.facts - {("owed",)}
        return R2.call(self, I, st, n, f, obj, args)

    def owes(self, outs, wh):
        for st, _ in outs:
            if ("owed",) in st.facts:
                self.late[wh] = "end"
        return bool(self.late)

    def empties(self, I, st):
        for t, v in st.conds.items():
            s = I.T.show(t)
            if v and "size" in s and I.T.tab[t][0] == "==" and any(I.T.const(x) == (True, 0) for x in I.T.tab[t][1:3]) or v and "empty" in s:
                return True
        return False

    def write(self, I, st, loc, rv, n):
        if loc and loc[-1] == "[]" and rv.av.lab & {DUAL}:
            st.facts = st.facts | {("collected", i) for i in I.loops}

    def iter_begin(self, I, st, n):
        st.facts = st.facts - {("collected", id(n)), ("stored", id(n))}

    def iter_end(self, I, st, n):
        if not I.dry:
            self.loops.setdefault(id(n), (n, I.where(n), I.chain(), set(), set()))
            for i, k in ((3, "collected"), (4, "stored")):
                self.loops[id(n)][i].add((k, id(n)) in st.facts)

    def loop_break(self, I, st, n):
        self.iter_end(I, st, n)


def partial(n):
    """A counting loop that visibly leaves elements out."""
    c = counting(n) if n.get("k") == "for" else None
    if c is None:
        return None
    k = const(c["start"]) if c["start"] is not None else None
    if k not in (0, None):
        return "starts at element %d" % k
    if c["step"] not in (1, None):
        return "takes every %d. element" % c["step"]
    if c["extra"]:
        return "leaves out the last element"
    for w in visit(c["bound"]):
        if w.get("k") == "call" and (w.get("f") or "").partition("<")[0] == "std::min" or w.get("k") == "bin" and w.get("op") in ("-", "/", ">>", "%"):
            return "stops before the last element"
    return None


def batches(cx, p):
    cls = NS + "EcdhPsiContext"
    n = 0
    for m, owe, pay in (("MaskPeer", ("Recv",), "send"), ("MaskSelf", ("ReadNextBatchWithDupCnt",), "send"), ("RecvDualMaskedSelf", ("Recv",), "save")):
        f = fn(p, cls + "::" + m)
        wh = "%s:%d" % (f.file, f.line)
        for tgt, selfok, peerok in ((0, True, False), (1, False, True), (ALLRANK, True, True)):
            for rec in (False, True):
                r = Batches(owe, pay)

                def setup(I, st):
                    st.store[SELF + ("options_", "target_rank")] = I.cst(tgt)
                    l = (("h", 0, 0, "recovery"),)
                    st.store[l + ("@cls",)] = I.cst("psi::RecoveryManager")
                    st.store[SELF + ("options_", "recovery_manager")] = AV(I.T.mk("&", l), E0, (l,), ()) if rec else I.cst(0)
                args = {q["n"]: (lambda I, st: RV(I.cst(0), None)) for q in f.d["ps"] if f.T[q["t"]].get("int")}
                I, outs = analyse(p, r, f, cls, setup, args=args)
                n += 1
                what = "%s, target %s%s" % (m, {0: "self", 1: "peer"}.get(tgt, "all"), ", recovery" if rec else "")
                if m == "MaskPeer" and not peerok or m == "RecvDualMaskedSelf" and not selfok:
                    r.late = {}
                else:
                    if not r.owes(outs, wh):
                        r.late = {}
                    for w, c in r.late.items():
                        cx.fail("every batch", what, "a batch that was read or received is not %s" % ("sent on" if pay == "send" else "stored"), w, [c])
                if not r.late:
                    cx.ok("every batch", what)
                if m == "RecvDualMaskedSelf" and selfok:
                    cx.check(any(lab & {PEER} for _, _, lab, _ in r.saves), "every batch", what + ": answers", "the answers are not stored", wh)
                if m == "MaskSelf" and peerok:
                    for w, c in r.bare.items():
                        cx.fail("counts included", what, "a batch is sent to the entitled peer without its duplicate counts", w, [c])
                    if not r.bare:
                        cx.ok("counts included", what)
                for nd, w, c, col, sto in r.loops.values():
                    if nd.get("k") in ("while", "do") or not (nd.get("k") == "rfor" or counting(nd)):
                        continue
                    for k, s in (("collected", col), ("stored", sto)):
                        if True not in s or k == "stored" and not selfok:
                            continue
                        cx.check(False not in s, "every element", "%s: loop at %s" % (what, w), "an element of a batch is not %s" % k, w, [c])
                        why = partial(nd)
                        cx.check(not why, "every element", "%s: range of the loop at %s" % (what, w), "the loop over a batch %s" % why, w, [c])
    cx.floor("batch loops analysed", n, 18)


class R3(R2):
    hook_save = False
    world = 3
    ROLE = {0: "master", 1: "calculator", 2: "partner"}

    def no_inline(self, I, fn):
        if fn.file.startswith("psi/utils/ec_point_store"):
            return False
        return R2.no_inline(self, I, fn)

    def special(self, I, st, n, b, cls, m, obj, args):
        if b.endswith("CreateP2PLinkCtx") and len(args) >= 3:
            c, v = I.isc(args[2].av)
            if not c:
                raise AnalysisError("the other side of a derived link is not determined at %s" % I.where(n))
            l = (("h", 0, v, "p2p"),)
            st.store[l + ("@cls",)] = I.cst(LINK)
            st.store[l + ("@peer",)] = I.cst(v)
            return [(st, RV(AV(I.T.mk("&", l), E0, (l,), ()), None))]
        return R2.special(self, I, st, n, b, cls, m, obj, args)

    def recv_labels(self, I, st, n, obj, args):
        return frozenset([PEER, ORD])


def three(cx, p):
    """Three parties: which role may send what to whom, and that the partner destroys the input order."""
    op = fn(p, "psi::Ecdh3PartyPsiOperator::OnRun")
    allowed = {("calculator", "partner"): {MASK, DUAL}, ("partner", "calculator"): {MASK, DUAL}, ("calculator", "master"): {PEER, DUAL},
               ("master", "calculator"): {MASK}, ("partner", "master"): {DUAL}, ("master", "partner"): set()}
    tot = 0
    for rank in (0, 1, 2):
        r = R3()
        r.rank = rank
        me = R3.ROLE[rank]

        def setup(I, st):
            h = (("h", 0, 0, "handler"),)
            st.store[h + ("@cls",)] = I.cst(NS + "ShuffleEcdh3PcPsi")
            st.store[h + ("options_", "master_rank")] = I.cst(0)
            st.store[SELF + ("handler_",)] = AV(I.T.mk("&", h), E0, (h,), ())
            st.store[SELF + ("options_", "master_rank")] = I.cst(0)
        analyse(p, r, op, "psi::Ecdh3PartyPsiOperator", setup, args={"inputs": lambda I, st: r.val(I, st, {RAW, ORD}, why="inputs")[0][1]})
        got = set()
        for f, w, dst, lab, ch, tag in r.sends:
            tot += 1
            to = R3.ROLE.get(dst)
            if to is None:
                cx.check(not (lab & {RAW, MASK, DUAL, PEER}), "3-party disclosure", "%s in %s to all" % (f, me), "item-derived data goes to every party", w, [ch])
                continue
            phase = "mask" if "MaskMaster" in ch else "partners" if "PartnersPsi" in ch else "final"
            ok = allowed[(me, to)]
            if (me, to) == ("calculator", "partner"):
                ok = {DUAL} if phase == "mask" else {MASK}
            if phase == "final":
                ok = set()
            data = (lab | tag) & {RAW, MASK, DUAL, PEER, DUP, IDX}
            site = "%s to %s, %s phase, in %s" % (me, to, phase, f)
            cx.check(data <= ok, "3-party disclosure", site, "%s sends %s to the %s" % (me, sorted(data - ok), to), w, [ch])
            if me == "partner" and to == "calculator" and phase == "partners":
                cx.check(ORD not in lab, "3-party order", site, "the partner's items reach the calculator in an order that identifies input rows", w, [ch])
            got |= {(to, phase, x) for x in lab}
        want = {"master": [("calculator", "mask", MASK)], "calculator": [("partner", "mask", DUAL), ("partner", "partners", MASK), ("master", "partners", PEER)],
                "partner": [("master", "mask", DUAL), ("calculator", "partners", MASK), ("calculator", "partners", DUAL)]}[me]
        for x in want:
            cx.check(x in got, "3-party liveness", "%s: %s to %s" % (me, x[2], x[0]), "no path of the %s sends its %s to the %s" % (me, x[2], x[0]), "%s:%d" % (op.file, op.line))
    return tot

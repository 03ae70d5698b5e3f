"""C08 recovery checkpoints never claim more than has been durably stored."""
from prog import AnalysisError
from ai import AV, RV, E0
from flow import *
from c05 import fn, effects
import models
from runner import analyse, SELF

RM = "psi::RecoveryManager"
G = ("g",)


class R(Flow):
    K = 6
    async_eager = True
    own, peer = 3, 5            # what the two parties recorded
    quiet = ()

    def __init__(self, own=3, peer=5):
        Flow.__init__(self)
        self.own, self.peer = own, peer
        self.first = set()      # first bucket handled
        self.skip = set()       # items skipped
        self.bad = []
        self.seen = {}

    def no_inline(self, I, fn):
        if fn.file.startswith("psi/checkpoint/") and not fn.f.startswith(tuple(self.quiet) or ("-",)):
            return True
        return fn.file.startswith(("psi/cryptor/", "psi/utils/arrow", "psi/utils/batch", "psi/utils/table_utils", "psi/utils/csv", "psi/utils/key", "psi/utils/join", "psi/utils/index_store",
                                   "psi/utils/resource", "psi/utils/io", "psi/utils/ec_point", "psi/utils/hash_bucket", "psi/utils/multiplex", "psi/utils/trace", "psi/utils/sync.cc",
                                   "psi/algorithm/kkrt/kkrt_psi", "psi/algorithm/rr22/rr22_psi.cc", "psi/algorithm/rr22/okvs"))

    def rep(self, I, n, rule, site, msg):
        if not I.dry:
            self.bad.append((rule, site, msg, I.where(n), I.chain()))

    def note(self, x):
        self.seen[x] = self.seen.get(x, 0) + 1

    def role(self, obj):
        l = obj.av.ref[0] if obj.av.ref else obj.loc
        return repr(l)

    def drop(self, st, f):
        if f in st.facts:
            st.facts = st.facts - {f}

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if cls.endswith("EcPointStore") and obj is not None:
            r = self.role(obj)
            if m == "Save":
                if len(args) >= 1:
                    t = I.ty(n["a"][0].get("t")) if n.get("a") else {}
                    if "vector" in str(t.get("rec") or t.get("s", "")):
                        z = models.container(I, n, st, b, "std::vector", "empty", args[0], [])[0][1].av.t
                        out = []
                        for v in (True, False):
                            s2 = st.copy()
                            if I.assume(s2, z, v):
                                if not v:
                                    s2.add(("dirty", r))
                                out.append((s2, RV(I.fresh("void"), None)))
                        return out
                st.add(("dirty", r))
                return V()
            if m == "Flush":
                self.drop(st, ("dirty", r))
                return V()
            if m == "ItemCount":
                x = V(("count of " + r,), why="count")
                st.store[(G, "count", r)] = x[0][1].av
                return x
        if cls.endswith("IndexWriter"):
            if m == "WriteCache":
                st.add(("dirty", "index"))
                if ("parsed",) in st.facts:
                    self.rep(I, n, "recorded after it is stored", "result index in " + self.fname(I), "a result is stored after its bucket has been recorded as finished")
                return V()
            if m == "Commit":
                self.drop(st, ("dirty", "index"))
                return V()
        if m == "Add" and cls.endswith("Receiver") and ("parsed",) in st.facts:
            self.rep(I, n, "recorded after it is stored", "result in " + self.fname(I), "a result is delivered after its bucket has been recorded as finished")
        if cls == RM:
            if m == "ecdh_dual_masked_cnt_from_peer":
                return [(st, RV(I.cst(self.peer), None))]
            if m == "parsed_bucket_count_from_peer":
                return [(st, RV(I.cst(self.peer), None))]
            if m == "checkpoint":
                x = V(why="checkpoint")
                l = x[0][1].loc
                for f in ("ecdh_dual_masked_item_self_count", "ecdh_dual_masked_item_peer_count", "parsed_bucket_count"):
                    st.store[l + (f,)] = I.cst(self.own if f != "ecdh_dual_masked_item_peer_count" else self.own + 1000)
                return x
            if m == "MarkOnlineStart":
                self.note(m)
                return [(st, RV(I.cst(False), None))]
            if m in ("UpdateEcdhDualMaskedItemSelfCount", "UpdateEcdhDualMaskedItemPeerCount"):
                self.note(m)
                which = "self" if "Self" in m else "peer"
                a = args[0].av
                want = getattr(self, which + "_role", None)
                site = "%s in %s" % (m, self.fname(I))
                cnt = st.store.get((G, "count", want))
                if cnt is None or a.t != cnt.t:
                    self.rep(I, n, "count is what the store holds", site, "the number recorded is not the item count of the %s store" % which)
                if ("dirty", want) in st.facts:
                    self.rep(I, n, "flushed before it is recorded", site, "progress is recorded while items saved to the %s store have not been flushed" % which)
                return V()
            if m == "UpdateParsedBucketCount":
                self.note(m)
                site = "%s in %s" % (m, self.fname(I))
                bk = st.store.get((G, "bucket"))
                if bk is None or args[0].av.t != I.arith("+", bk, I.cst(1)).t:
                    self.rep(I, n, "count is the finished buckets", site, "the number recorded is not one more than the bucket just finished")
                if ("dirty", "index") in st.facts:
                    self.rep(I, n, "flushed before it is recorded", site, "a bucket is recorded as finished before its results are committed")
                st.add(("parsed",))
                return V()
            if m == "MarkOnlineEnd":
                self.note(m)
                if ("eff", "ran") not in st.facts and not st.store.get((G, "online")):
                    self.rep(I, n, "stage recorded after its work", "%s in %s" % (m, self.fname(I)), "the online stage is recorded as finished on a path that has not run it")
                return V()
            if m == "MarkPostProcessEnd":
                self.note(m)
                st.add(("eff", "post end"))
                return V()
            if m.startswith("ecdh_dual_masked_") and m.endswith("_path"):
                return V((m,), why=m)
            if m == "MarkPreProcessEnd":
                self.note(m)
                lab = self.deep(I, st, args[:1])
                st.add(("eff", "pre end" + (" with cryptor" if "cryptor" in lab else "")))
                return V()
        if b in ("psi::ecdh::RunEcdhPsi",) and getattr(self, "hide_run", False):
            self.note("RunEcdhPsi")
            st.add(("eff", "ran"))
            return V()
        if m == "CreateEccCryptor":
            l = I.tmp("cryptor")
            return [(st, RV(AV(I.T.mk("&", l), frozenset(["cryptor"]), (l,), ()), None))]
        if m == "FinalizeAndComputeIndices":
            self.note(m)
            if ("eff", "post end") in st.facts:
                self.rep(I, n, "stage recorded after its work", "%s in %s" % (m, self.fname(I)), "the result is computed after the job has been recorded as finished")
            return V()
        if m == "MaskSelf" and len(args) >= 2:
            c, v = I.isc(args[1].av)
            self.skip.add(v if c else None)
            return V()
        k = {"Load": 0, "LoadBucketItems": 0, "PrepareBucketData": 1}.get(m)
        if k is not None and len(args) > k and (b.startswith("psi::") or "psi" in cls):
            c, v = I.isc(args[k].av)
            self.first.add(v if c else None)
            fr = I.fr
            while fr is not None:
                if fr.fn is not None and getattr(fr.fn, "f", "").endswith("::PrepareBucketData"):
                    return None
                fr = fr.up
            st.store[(G, "bucket")] = args[k].av
            self.drop(st, ("parsed",))
            return None
        if cls.endswith("Rr22Runner") and m in ("AsyncRun", "ParallelRun", "Run"):
            c, v = I.isc(args[0].av)
            self.first.add(v if c else None)
            self.note("runner")
            l = obj.loc or obj.av.ref[0]
            pf = I.rd(st, l + ("post_f_",))
            if not pf.clo:
                raise AnalysisError("post-processing callback of the bucket runner not found")
            bk = I.fresh("bucket")
            st.store[(G, "bucket")] = bk
            self.drop(st, ("parsed",))
            out = []
            for s2, rv in I.call_closures(n, st, RV(pf, None), [RV(bk, None)] + [RV(I.fresh("x"), None) for _ in range(3)]):
                out.append((s2, RV(I.fresh("void"), None)))
            return out
        if m.startswith("ctor:") or b.startswith("ctor:"):
            pass
        if b.endswith("HashBucketEcPointStore") and obj is not None and args:
            lab = self.deep(I, st, args[:1])
            p = [x for x in lab if x.startswith("ecdh_dual_masked")]
            if p:
                self.note("recovery store")
                ok = len(args) >= 3 and I.isc(args[2].av) == (True, False)
                if not ok:
                    self.rep(I, n, "stores survive a restart", "%s in %s" % (p[0], self.fname(I)), "a store a checkpoint refers to is created in a folder that goes away with the process")
                st.store[(obj.loc or ()) + ("@which",)] = I.fresh("w", frozenset(p))
        return None


def flush(cx, r, n0=0):
    for rule, site, msg, w, ch in r.bad:
        cx.fail(rule, site, msg, w, [ch])
    for k, v in r.seen.items():
        cx.ok("checked", "%s" % k)


class Mem(Flow):
    """RecoveryManager itself."""
    K = 8
    exch = (0, 0)

    def __init__(self):
        Flow.__init__(self)
        self.bad = []
        self.saves = 0

    def no_inline(self, I, fn):
        return fn.f.endswith("::SaveCheckpointFile") and self.hide_save or fn.file.startswith(("psi/cryptor", "psi/utils/io"))

    hide_save = True
    cp = None

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if m == "SaveCheckpointFile" and self.hide_save:
            self.saves += 1
            st.add(("eff", "saved"))
            if self.in_key and not I.dry:
                if ("eff", "key flushed") not in st.facts:
                    self.bad.append(("key before checkpoint", "RecoveryManager::MarkPreProcessEnd", "the checkpoint is saved before the private key it relies on has been written and flushed", I.where(n), I.chain()))
            return V()
        if m == "GetPrivateKey":
            return V(("key",), why="key")
        if m == "SetPrivateKey":
            st.add(("eff", "key loaded"))
            return V()
        if m == "BuildOutputStream":
            lab = self.deep(I, st, args)
            l = (("h", I.fr.id, n["l"], "stream"),)
            st.store[l] = I.fresh("stream", lab)
            return [(st, RV(AV(I.T.mk("&", l), lab, (l,), ()), None))]
        if m == "FileIoOptions":
            return None
        if m in ("Write", "write") and args and "key" in self.deep(I, st, args[:1]):
            if obj is not None and "key path" in self.deep(I, st, [obj]):
                st.add(("eff", "key written"))
                st.facts = st.facts - {("eff", "key flushed")}
            return V()
        if m in ("Flush", "flush", "Close", "close") and obj is not None and "key path" in self.deep(I, st, [obj]):
            if ("eff", "key written") in st.facts:
                st.add(("eff", "key flushed"))
            return V()
        if b == "yacl::link::AllGather":
            l = I.tmp("gathered")
            st.store[l] = I.fresh("gathered", frozenset(["gathered"]))
            return [(st, RV(st.store[l], l))]
        if m in ("operator[]", "at") and obj is not None and "gathered" in obj.av.lab and args and I.isc(args[0].av)[0]:
            return V(("rank %d" % I.isc(args[0].av)[1],), why="of rank")
        if m in ("ParseFromString", "ParseFromArray") and obj is not None and args:
            lab = frozenset(x for x in self.deep(I, st, args[:1]) if x.startswith("rank"))
            if obj.loc is not None:
                I.kill(st, obj.loc)
                st.store[obj.loc] = I.fresh("record", lab)
                for f in ("stage", "ecdh_dual_masked_item_peer_count", "parsed_bucket_count"):
                    v = I.fresh(f, lab | {f})
                    if f == "stage":
                        for i in (0, 1):
                            if "rank %d" % i in lab:
                                v = I.cst(self.exch[i])
                    st.store[obj.loc + (f,)] = v
            return [(st, RV(I.fresh("ok"), None))]
        if cls == LINK and m == "WorldSize":
            return [(st, RV(I.cst(2), None))]
        return None

    in_key = False


def run(cx):
    p = cx.prog(scope=("psi/checkpoint/", "psi/algorithm/", "psi/interface", "psi/utils/"))
    cx.rule("typestate over every abstract path: data saved to a store makes it dirty, flushing cleans it; progress may be recorded only for a clean store and only as the store's own count or the bucket just finished; "
            "restart positions are evaluated for recorded progress of both parties; private key and checkpoint file writes are ordered and replaced atomically")
    cx.trust("flushing a stream makes its data survive the process", "file rename is atomic", "the three ECDH tasks are analysed one after the other; each store is written by one task")
    n = 0
    wh = lambda f: "%s:%d" % (f.file, f.line)
    # --- ECDH: run with every target and recorded progress
    run_ = [f for f in p.byname["psi::ecdh::RunEcdhPsi"] if f.d.get("body") and len(f.d["ps"]) == 4]
    if len(run_) != 1:
        raise AnalysisError("RunEcdhPsi not found")
    run_ = run_[0]
    ps = [q["n"] for q in run_.d["ps"]]
    for tgt, who in ((ALLRANK, "both"), (0, "self"), (1, "peer")):
        for own, peer in ((3, 5), (5, 3), (0, 7), (7, 0)):
            r = R(own, peer)
            r.self_role, r.peer_role = repr((("p*", ps[2]),)), repr((("p*", ps[3]),))

            def setup(I, st):
                o = (("p", ps[0]),)
                st.store[o + ("target_rank",)] = I.cst(tgt)
                rm = (("rm",),)
                st.store[o + ("recovery_manager",)] = AV(I.T.mk("&", rm), E0, (rm,), ())
            I, outs = analyse(p, r, run_, None, setup)
            what = "ECDH, result for %s, own %d, peer %d" % (who, own, peer)
            lim = {"both": min(own, peer), "self": own, "peer": peer}[who]
            flush(cx, r)
            cx.check(bool(r.skip) and None not in r.skip and max(r.skip or {0}) <= lim, "resume position", what,
                     "after a restart %s items are skipped although only %d are known to be stored" % (sorted(map(str, r.skip)), lim), wh(run_))
            need = set()
            if who != "peer":
                need = {"UpdateEcdhDualMaskedItemSelfCount", "UpdateEcdhDualMaskedItemPeerCount"}
            for x in need:
                cx.check(x in r.seen, "progress is recorded", what + ": " + x, "%s is never reached although recovery is on" % x, wh(run_))
            for st, _ in outs:
                d = [f for f in st.facts if f[0] == "dirty"]
                cx.check(not d, "flushed at the end", what, "the online phase ends with items saved but not flushed; the next stage is recorded on that basis", wh(run_))
            n += 2
    # --- what is sent after a restart
    f = fn(p, "psi::ecdh::EcdhPsiContext::MaskSelf")
    if len(f.d["ps"]) != 2:
        raise AnalysisError("MaskSelf takes other arguments")

    class D(Flow):
        K = 6

        def __init__(self):
            Flow.__init__(self)
            self.n, self.bad = 0, []

        def no_inline(self, I, fn):
            return fn.file.startswith(("psi/cryptor/", "psi/utils/"))

        def special(self, I, st, n, b, cls, m, obj, args):
            if m == "SendBatch":
                return self.val(I, st, ())
            if cls.endswith("map") and m in ("operator[]", "insert", "emplace", "try_emplace", "insert_or_assign", "at") and args and obj is not None and not I.dry:
                lab = self.deep(I, st, args)
                key = self.deep(I, st, args[:1])
                if DUP in lab:
                    self.n += 1
                    if "offset" not in key:
                        self.bad.append((I.where(n), I.chain()))
            return None
    r = D()

    def setup(I, st):
        st.store[(("p", f.d["ps"][1]["n"]),)] = I.fresh("offset", frozenset(["offset"]))
    analyse(p, r, f, None, setup)
    n += 1
    for w, c in r.bad[:1]:
        cx.fail("remaining items keep their counts", "MaskSelf", "after a restart duplicate counts are filed under positions that do not account for the items skipped", w, [c])
    if not r.bad:
        cx.ok("remaining items keep their counts", "MaskSelf")
    # --- bucketed protocols
    roots = [("psi::PsiOperator::OnSequenceRun", "psi::kkrt::KkrtOperator")]
    for k, c in (("kkrt::KkrtPsi", "psi::kkrt::"), ("rr22::Rr22Psi", "psi::rr22::")):
        for side in ("Receiver", "Sender"):
            roots.append(("psi::%s%s::Online" % (k, side), None))
    for name, cls in roots:
        f = fn(p, name)
        for own, peer in ((3, 5), (5, 3), (0, 7), (7, 0)):
            r = R(own, peer)

            def setup(I, st):
                rm = (("rm",),)
                st.store[SELF + ("recovery_manager_",)] = AV(I.T.mk("&", rm), E0, (rm,), ())
            I, outs = analyse(p, r, f, cls, setup)
            what = "%s, own %d, peer %d" % (name[5:], own, peer)
            flush(cx, r)
            cs = {x for x in r.first if x is not None}
            cx.check(bool(cs) and max(cs) <= min(own, peer), "resume position", what, "after a restart the first bucket handled is %s although only %d are finished on both sides" % (sorted(cs), min(own, peer)), wh(f))
            cx.check("UpdateParsedBucketCount" in r.seen, "progress is recorded", what, "finished buckets are never recorded although recovery is on", wh(f))
            n += 2
    # --- stages
    for side in ("Receiver", "Sender"):
        c = "psi::ecdh::EcdhPsi" + side
        for m in ("Online", "PostProcess", "PreProcess"):
            f = fn(p, c + "::" + m)
            r = R()
            r.hide_run = True

            def setup(I, st):
                rm = (("rm",),)
                st.store[SELF + ("recovery_manager_",)] = AV(I.T.mk("&", rm), E0, (rm,), ())
                st.store[SELF + ("digest_equal_",)] = I.cst(False)
            I, outs = analyse(p, r, f, None, setup)
            flush(cx, r)
            n += 1
            if m == "Online":
                cx.check("MarkOnlineStart" in r.seen and "MarkOnlineEnd" in r.seen and "RunEcdhPsi" in r.seen, "stage recorded", c + "::" + m, "start or end of the online stage is not recorded", wh(f))
            if m == "PreProcess":
                prestage(cx, c, I, outs, r, f)
    f = fn(p, "psi::ecdh::EcdhOperator::OnInit")
    r = R()

    def setup(I, st):
        rm = (("rm",),)
        st.store[SELF + ("recovery_manager_",)] = AV(I.T.mk("&", rm), E0, (rm,), ())
        cl = (("cr",),)
        st.store[SELF + ("opts_", "ecc_cryptor")] = AV(I.T.mk("&", cl), frozenset(["cryptor"]), (cl,), ())
    I, outs = analyse(p, r, f, None, setup)
    flush(cx, r)
    prestage(cx, "psi::ecdh::EcdhOperator", I, outs, r, f)
    n += 1
    # --- the manager
    manager(cx, p, wh)
    stores(cx, p, wh)
    cx.floor("obligations", n + len(cx.obl), 60)


def prestage(cx, c, I, outs, r, f):
    w = "%s:%d" % (f.file, f.line)
    which = {}
    for st, _ in outs:
        cx.check(("eff", "pre end with cryptor") in st.facts, "key is saved or restored first", c, "a path prepares the job without saving or restoring the private key its stored items depend on", w)
        for s in ("self", "peer"):
            a = I.rd(st, SELF + (s + "_ec_point_store_",))
            lab = set()
            for l in a.ref:
                x = st.store.get(l + ("@which",))
                lab |= set(x.lab) if x is not None else set()
            which.setdefault(s, set()).update(lab)
    cx.check(len(which.get("self", ())) == 1 and len(which.get("peer", ())) == 1 and which["self"] != which["peer"], "stores survive a restart", c + " stores",
             "the two stores are not kept in two separate folders of the recovery directory (%s)" % which, w)


def manager(cx, p, wh):
    st_ = {e["n"]: e["v"] for e in p.enums["psi::v2::RecoveryCheckpoint_Stage"]["v"]} if "psi::v2::RecoveryCheckpoint_Stage" in p.enums else {}
    st_ = {k.rsplit("_STAGE_", 1)[-1].replace("STAGE_", ""): v for k, v in st_.items()}
    if "ONLINE_END" not in st_:
        raise AnalysisError("recovery stages not found: %s" % sorted(p.enums)[:5])
    # private key
    f = fn(p, RM + "::MarkPreProcessEnd")
    for s, name in ((st_["INIT_END"], "first run"), (st_["ONLINE_START"], "restart")):
        r = Mem()
        r.in_key = True

        def setup(I, st):
            st.store[SELF + ("checkpoint_", "stage")] = I.cst(s)
            st.store[SELF + ("private_key_file_path_",)] = I.fresh("kp", frozenset(["key path"]))
            l = (("cr",),)
            st.store[(("p", "cryptor"),)] = AV(I.T.mk("&", l), E0, (l,), ())
        I, outs = analyse(p, r, f, None, setup)
        for b in r.bad:
            cx.fail(*b[:4], path=[b[4]])
        for st, _ in outs:
            e = effects(st)
            if name == "restart":
                cx.check("key loaded" in e and "key written" not in e, "key is restored", "MarkPreProcessEnd", "on a restart the stored private key is not loaded (or is overwritten)", wh(f))
            else:
                cx.check("saved" in e and "key flushed" in e, "key before checkpoint", "MarkPreProcessEnd end", "the first run ends this stage without the private key and the checkpoint on disk", wh(f))
    # exchange of records
    f = fn(p, RM + "::MarkOnlineStart")
    end, start = st_["ONLINE_END"], st_["ONLINE_START"]
    for rank in (0, 1):
        for ex in ((start, end), (end, start), (end, end)):
            r = Mem()
            r.rank, r.world, r.exch = rank, 2, ex

            def setup(I, st):
                l = (("lc",),)
                st.store[(("p", "lctx"),)] = AV(I.T.mk("&", l), E0, (l,), ())
                st.store[l + ("@cls",)] = I.cst(LINK)
            I, outs = analyse(p, r, f, None, setup)
            if not outs:
                raise AnalysisError("no end of MarkOnlineStart reached")
            for st, rv in outs:
                site = "MarkOnlineStart, rank %d" % rank
                if ex != (end, end):
                    cx.check(I.isc(rv.av) == (True, 0) or I.isc(rv.av) == (True, False) or I.known(st, rv.av.t) is False, "online stage skipped only when both finished", site,
                             "the online stage is skipped although only one party has finished it", wh(f))
                for fld, src in (("ecdh_dual_masked_cnt_from_peer_", "ecdh_dual_masked_item_peer_count"), ("parsed_bucket_count_from_peer_", "parsed_bucket_count")):
                    a = I.rd(st, SELF + (fld,))
                    cx.check(set(a.lab) == {"rank %d" % (1 - rank), src}, "peer's record is the peer's", site + ": " + fld, "%s is not the value the other party recorded (%s)" % (fld, sorted(a.lab)), wh(f))
    # file replacement
    f = fn(p, RM + "::SaveCheckpointFile")

    class Save(Mem):
        hide_save = False

        def special(self, I, st, n, b, cls, m, obj, args):
            c = b.split("<")[0]
            opens = (c.endswith(("basic_ofstream", "basic_fstream", "ofstream", "fstream")) and args) or m in ("open", "GetStdOutFileStream", "FileIoOptions", "DumpPbMessageToJsonFile")
            if opens:
                for a in args:
                    if self.direct(I, a.av.t):
                        self.bad.append(("atomic checkpoint", "SaveCheckpointFile opens the checkpoint", "the checkpoint file is overwritten in place: a crash while writing leaves no readable checkpoint", I.where(n), I.chain()))
            if b == "std::filesystem::rename" and len(args) >= 2:
                st.add(("eff", "renamed" if self.direct(I, args[1].av.t) else "renamed elsewhere"))
                return self.val(I, st, ())
            return Mem.special(self, I, st, n, b, cls, m, obj, args)

        def direct(self, I, t, d=0):
            if t == self.cp:
                return True
            k = I.T.tab[t]
            if k[0] == "call" and d < 4 and k[1] in ("string", "c_str", "native", "u8string", "generic_string"):
                return any(isinstance(x, int) and self.direct(I, x, d + 1) for x in k[2:3])
            if k[0] == "ctor" and d < 4 and len(k[2]) >= 1:
                return self.direct(I, k[2][0], d + 1)
            return False
    r = Save()

    def setup(I, st):
        st.store[SELF + ("checkpoint_file_path_",)] = I.fresh("cp")
        r.cp = st.store[SELF + ("checkpoint_file_path_",)].t
    I, outs = analyse(p, r, f, None, setup)
    for b in r.bad:
        cx.fail(*b[:4], path=[b[4]])
    if not outs:
        raise AnalysisError("no end of SaveCheckpointFile reached")
    for st, _ in outs:
        cx.check("renamed" in effects(st), "atomic checkpoint", "SaveCheckpointFile", "a path ends without the new checkpoint having been moved into place", wh(f))
    # every method that changes the record saves it
    for name, fs in sorted(p.byname.items()):
        if name.startswith(RM + "::") and name.rsplit("::", 1)[1].startswith(("Update", "Mark")):
            for f in fs:
                if not f.d.get("body"):
                    continue

                class W(Mem):
                    def write(self, I, st, loc, rv, n):
                        if loc[:2] == SELF + ("checkpoint_",) and len(loc) > 2:
                            st.add(("eff", "changed"))
                            st.facts = st.facts - {("eff", "saved")}
                r = W()
                I, outs = analyse(p, r, f, None)
                for st, _ in outs:
                    e = effects(st)
                    cx.check("changed" not in e or "saved" in e, "recorded on disk", name[5:], "a path changes the record without saving it", wh(f))


def stores(cx, p, wh):
    class W(Flow):
        K = 8

        def no_inline(self, I, fn):
            return fn.file.startswith(("psi/utils/io", "psi/utils/multiplex"))

        def special(self, I, st, n, b, cls, m, obj, args):
            if m == "Flush" and obj is not None:
                ls = list(obj.av.ref) + ([obj.loc] if obj.loc is not None else [])
                if (("os",),) in ls:
                    if I.loopdepth:
                        st.store[(("os",),)] = I.fresh("clean")
                    return self.val(I, st, ())
            return None
    f = fn(p, "psi::HashBucketEcPointStore::Flush")
    r = W()

    def setup(I, st):
        c = (("cache",),)
        st.store[SELF + ("cache_",)] = AV(I.T.mk("&", c), E0, (c,), ())
        st.store[c + ("@cls",)] = I.cst("psi::HashBucketCache")
        o = (("os",),)
        st.store[o] = I.fresh("os", frozenset(["unflushed"]))
        st.store[c + ("bucket_os_vec_", "[]")] = AV(I.T.mk("&", o), E0, (o,), ())
    I, outs = analyse(p, r, f, None, setup)
    for st, _ in outs:
        cx.check("unflushed" not in I.rd(st, (("os",),)).lab, "a flush reaches every stream", "HashBucketEcPointStore::Flush", "a path leaves a bucket file unflushed", wh(f))

    class C(Flow):
        K = 8

        def special(self, I, st, n, b, cls, m, obj, args):
            if m == "WriteRecordBatch":
                st.add(("eff", "written"))
                st.facts = st.facts - {("eff", "flushed")}
            if m in ("Flush",) and obj is not None and "file" in self.deep(I, st, [obj]):
                if ("eff", "written") in st.facts:
                    st.add(("eff", "flushed"))
            return None
    f = fn(p, "psi::IndexWriter::Commit")
    r = C()

    def setup(I, st):
        o = (("of",),)
        st.store[SELF + ("outfile_",)] = AV(I.T.mk("&", o), frozenset(["file"]), (o,), ())
        st.store[o] = I.fresh("of", frozenset(["file"]))
        st.store[SELF + ("cache_cnt_",)] = I.cst(3)
    I, outs = analyse(p, r, f, None, setup)
    if not outs:
        raise AnalysisError("no end of IndexWriter::Commit reached")
    for st, _ in outs:
        cx.check("flushed" in effects(st), "a flush reaches every stream", "IndexWriter::Commit", "a path ends without the cached results written and flushed", wh(f))
    # numbering of a reopened store
    f = [g for g in p.fns.values() if g.cls == "psi::HashBucketCache" and g.d.get("ctor") and g.d.get("body")]
    if len(f) != 1:
        raise AnalysisError("constructor of HashBucketCache not found")
    f = f[0]
    r = W()
    I, outs = analyse(p, r, f, None, None, args={"use_scoped_tmp_dir": lambda I, st: RV(I.cst(False), None)})
    for st, _ in outs:
        a = I.rd(st, SELF + ("item_index_",))
        cx.check(not I.isc(a)[0], "a reopened store continues its numbering", "HashBucketCache ctor", "a store reopened after a restart numbers its items from zero again, so rows recorded after the restart carry wrong row indices", wh(f))

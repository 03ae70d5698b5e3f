"""C09 work left by an earlier run is reused only for the configuration, input and key it was made for."""
from prog import AnalysisError, gen_protos
from ai import AV, RV, E0
from flow import *
from c05 import fn
from c19 import Config, leaves, PSI, PARTY, DO, EQ
import pbdesc
import models
from runner import analyse, SELF

RM = "psi::RecoveryManager"


class Mark(Config):
    """MarkInitEnd: what is compared, what is recorded."""
    saved = 0

    def no_inline(self, I, fn):
        return fn.f.endswith("RecoveryManager::SaveCheckpointFile")

    def special(self, I, st, n, b, cls, m, obj, args):
        if m == "SaveCheckpointFile":
            self.saved += not I.dry
            st.add(("saved",))
            return self.val(I, st, ())
        if m in EQ + ("memcmp", "compare") and len(args) + (obj is not None) == 2:
            x, y = ([obj] if obj is not None else []) + args
            a, c = self.deep(I, st, [x]), self.deep(I, st, [y])
            if {"dig-now", "dig-then"} <= a | c and len(a & {"dig-now", "dig-then"}) == 1:
                return self.fork(I, st, ("digest",), m == "operator!=")
        if b == "std::equal" and {"dig-now", "dig-then"} <= self.deep(I, st, args):
            return self.fork(I, st, ("digest",)) if len(args) >= 4 else None
        return Config.special(self, I, st, n, b, cls, m, obj, args)


class Start(Flow):
    """Run() with recovery switched on."""
    K = 8
    inline_max = 14

    def __init__(self, rank):
        Flow.__init__(self)
        self.rank = rank
        self.bad, self.seen = [], {}

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/utils/join", "psi/utils/table", "psi/utils/arrow", "psi/checkpoint/", "psi/utils/index_store", "psi/utils/resource", "psi/utils/progress", "psi/utils/trace", "psi/utils/bucket"))

    def rep(self, I, n, rule, site, msg):
        if not I.dry:
            self.bad.append((rule, site, msg, I.where(n), I.chain()))

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if m == "CheckPeerConfig" and "Party" in cls:
            return V()
        if m == "KeysHash":
            return V(("digest",), why=m)
        if cls == RM:
            if m == "MarkInitEnd":
                self.seen["MarkInitEnd"] = 1
                a, c = self.deep(I, st, args[:1]), self.deep(I, st, args[1:2])
                if "cfg" in a and "digest" in c:
                    st.add(("resumable",))
                else:
                    self.rep(I, n, "checkpoint compared with this run", self.fname(I), "MarkInitEnd is not given this run's %s" % ("configuration" if "cfg" not in a else "digest of the input keys"))
                return V()
            if m != "RecoveryManager" and ("resumable",) not in st.facts:
                self.rep(I, n, "compared before use", m, "%s is used before the checkpoint has been compared with the configuration and input" % m)
            return V()
        if m in DO and "Psi" in cls:
            self.seen[m] = 1
            if m != "Finalize" and ("resumable",) not in st.facts:
                self.rep(I, n, "compared before use", m, "with recovery enabled %s runs on a path where the checkpoint has not been compared with the configuration and input" % m)
            return V()
        return None


class Digest(Flow):
    """Where the digest in a KeyInfo comes from."""
    K = 8

    def __init__(self):
        Flow.__init__(self)
        self.made, self.paths = [], []

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/utils/arrow", "psi/utils/pb_helper", "psi/utils/random")) or fn.f.startswith(("psi::KeyInfo::KeyInfo", "psi::Table::Table"))

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if m == "LoadJsonFileToPbMessage" and len(args) > 1:
            for l in (args[1].av.ref or ()) + ((args[1].loc,) if args[1].loc else ()):
                I.wr(st, l, RV(I.fresh("old", frozenset(["left by an earlier run"])), None), n)
            return V()
        if m == "Update" and "Hash" in cls and obj is not None:
            l = obj.loc if obj.loc is not None else obj.av.ref[0]
            a = I.rd(st, l)
            st.store[l] = AV(I.T.fresh("hash"), a.lab | (self.deep(I, st, args) & {RAW}), a.ref, a.clo)
            return [(st, RV(st.store[l], l))]
        if m == "CumulativeHash":
            return V(self.deep(I, st, [obj]) | {"hash"}, why="digest")
        if m == "GetRandomString":
            return V(("new name",), why="name")
        if b in ("ctor:psi::KeyInfo", "psi::KeyInfo::KeyInfo") and len(args) >= 4:
            if not I.dry:
                l = args[3].loc if args[3].loc is not None else (args[3].av.ref[0] if args[3].av.ref else None)
                lab = (I.rd(st, l + ("keys_hash",)).lab if l is not None else E0) | {x for x in args[3].av.lab}
                self.made.append((lab, I.where(n), I.chain()))
            return V()
        return None


class Size(Flow):
    K = 8

    def no_inline(self, I, fn):
        return fn.file.startswith("psi/utils/pb_helper")

    def special(self, I, st, n, b, cls, m, obj, args):
        if m == "LoadJsonFileToPbMessage" and len(args) > 1:
            for l in (args[1].av.ref or ()) + ((args[1].loc,) if args[1].loc else ()):
                I.wr(st, l, RV(I.fresh("meta", frozenset(["recorded"])), None), n)
            return self.val(I, st, ())
        if b == "std::filesystem::file_size":
            return self.val(I, st, ("present",), why="size")
        return None

    def branch(self, I, st, n, taken):
        rv = I.branch_rv
        t, s = rv.av.t, taken
        while I.T.tab[t][0] == "!":
            t, s = I.T.tab[t][1], not s
        if {"recorded", "present"} <= rv.av.lab and I.T.tab[t][0] == "==" and s:
            st.add(("complete",))


class Key(Flow):
    """UB-PSI server: which key goes with which cache."""
    K = 8
    inline_max = 8
    async_eager = True

    def __init__(self):
        Flow.__init__(self)
        self.servers, self.caches, self.bad = [], [], []

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/utils/", "psi/algorithm/ecdh/ub_psi/ecdh_oprf", "psi/algorithm/ecdh/ub_psi/ub_psi_cache", "psi/algorithm/ecdh/ub_psi/basic")) and not fn.file.startswith("psi/utils/sync.h")

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if m == "ReadEcSecretKeyFile":
            return V(("key file",), why="key")
        if m.startswith("SecureRandBytes"):
            return V(("new key",), why="key")
        if m == "GetCachePrivateKey":
            return V(("key of the cache",), why="key")
        if m in EQ and len(args) + (obj is not None) == 2:
            x, y = ([obj] if obj is not None else []) + args
            a, c = self.deep(I, st, [x]), self.deep(I, st, [y])
            if {"key file", "key of the cache"} <= a | c and a != c:
                out = []
                for v in (True, False):
                    s2 = st.copy()
                    if v:
                        s2.add(("same key",))
                    out.append((s2, RV(I.cst(v != (m == "operator!=")), None)))
                return out
        if b in ("ctor:psi::ecdh::EcdhOprfPsiServer", "psi::ecdh::EcdhOprfPsiServer::EcdhOprfPsiServer"):
            lab = self.deep(I, st, args[1:2])
            if not I.dry:
                self.servers.append((lab, ("same key",) in st.facts, I.where(n), I.chain()))
            st.facts = frozenset(x for x in st.facts if x[0] != "server") | {("server", lab)}
            return V()
        if b in ("ctor:psi::UbPsiCache", "psi::UbPsiCache::UbPsiCache"):
            lab = self.deep(I, st, args[3:4])
            sv = [x[1] for x in st.facts if x[0] == "server"]
            if not I.dry:
                self.caches.append((lab, sv, I.where(n), I.chain()))
            return V()
        if "EcdhOprfPsiServer" in cls and b.count("::") and obj is not None:
            return V((RAW,))
        return None


def run(cx):
    p = cx.prog()
    d, _ = gen_protos()
    msgs, _e = pbdesc.load(d + "/all.desc")
    leaf = leaves(msgs, PSI)
    cx.floor("configuration fields", len(leaf), 15)
    cx.rule("MarkInitEnd returns only after the whole configuration (every field of the message) and the digest were found equal to the recorded ones, or, when nothing is recorded, after both were recorded and saved")
    cx.rule("with recovery enabled, Run of every protocol class hands MarkInitEnd this run's configuration and key digest before any phase or other use of the recovery state")
    cx.rule("the key digest is computed from the rows read in this run on every path; where a digest on disk is reused its file name is new to the run")
    cx.rule("the UB-PSI server works with the key its cache was made with, and a cache is opened only if it is as long as recorded")
    cx.trust("GetRandomString does not repeat a name", "two different inputs do not have the same SHA-256 digest")
    # ---- comparison
    f = fn(p, RM + "::MarkInitEnd")
    R = Mark(leaf)
    ps = [q["n"] for q in f.d["ps"]]
    if len(ps) != 2:
        raise AnalysisError("MarkInitEnd has other parameters than configuration and digest")
    ck = SELF + ("checkpoint_",)

    def setup(I, st):
        R.put(I, st, ck + ("config",), ("peer",))
        st.store[ck + ("input_hash_digest",)] = I.fresh("then", frozenset(["dig-then"]))

    def conf(I, st):
        R.put(I, st, (("arg", "config"),))
        return RV(I.rd(st, (("arg", "config"),)), (("arg", "config"),))

    def dig(I, st):
        l = (("arg", "digest"),)
        st.store[l] = I.fresh("digest", frozenset(["dig-now"]))
        return RV(st.store[l], l)
    I, outs = analyse(p, R, f, None, setup, {ps[0]: conf, ps[1]: dig})
    if not outs:
        raise AnalysisError("MarkInitEnd never returns")
    w = "%s:%d" % (f.file, f.line)
    for st, _ in outs:
        rec = ("saved",) in st.facts
        if rec:
            lc = {".".join(q): I.rd(st, ck + ("config",) + q).lab for q in leaf}
            miss = [q for q, x in lc.items() if "cfg:" + q not in x or "peer" in x]
            cx.check(not miss, "checkpoint recorded", "configuration", "a new checkpoint does not record field %s of the configuration" % (miss or ["?"])[0], w)
            cx.check("dig-now" in I.rd(st, ck + ("input_hash_digest",)).lab, "checkpoint recorded", "digest", "a new checkpoint does not record the digest of the input keys", w)
            sg = I.isc(I.rd(st, ck + ("stage",)))
            cx.check(sg[0] and sg[1] != 0, "checkpoint recorded", "stage", "a new checkpoint is not marked as made, so that the next run does not compare it", w)
        else:
            for q in leaf:
                q = ".".join(q)
                cx.check(any(x[0] == "agreed" and x[2] and q not in x[1] for x in st.facts), "checkpoint compared", q,
                         "a checkpoint made with a different %s is resumed" % q, w)
            cx.check(("digest",) in st.facts, "checkpoint compared", "input digest", "a checkpoint made for different input keys is resumed", w)
    cx.check(R.saved and any(("saved",) not in st.facts for st, _ in outs), "checkpoint compared", "both cases", "MarkInitEnd does not distinguish a new checkpoint from an existing one", w)
    # what "existing" means: recording over a checkpoint is allowed only in the unspecified stage
    for st, _ in outs:
        if ("saved",) in st.facts:
            z = [kk for kk, v in st.conds.items() if v and I.T.tab[kk][0] == "==" and any(I.T.const(x) == (True, 0) for x in I.T.tab[kk][1:3])]
            cx.check(bool(z), "checkpoint compared", "only a missing one is replaced", "MarkInitEnd overwrites a checkpoint without comparing it", w)
    # ---- order
    n = 0
    for base, nm in PARTY:
        for side, rank in (("Sender", 0), ("Receiver", 1)):
            cls = base + side
            R = Start(rank)

            def setup2(I, st):
                st.store[SELF + ("config_",)] = I.fresh("config", frozenset(["cfg"]))
                st.store[SELF + ("config_", "recovery_config", "enabled")] = I.cst(1)
                st.store[SELF + ("recovery_manager_",)] = I.cst(0)      # as constructed
            I, outs = analyse(p, R, fn(p, "psi::AbstractPsiParty::Run"), cls, setup2)
            for r, s, msg, w, ch in R.bad:
                cx.fail(r, cls.rpartition("::")[2] + " " + s, msg, w, [ch])
            for x in R.seen:
                cx.ok("compared before use", cls.rpartition("::")[2] + " " + x)
            n += len([x for x in R.seen if x in DO])
    cx.floor("protocol phases reached", n, 12)
    # ---- digest of the current input
    n = 0
    for f in p.byname.get("psi::KeyInfo::Make", ()):
        R = Digest()
        I, outs = analyse(p, R, f)
        given = len(f.d["ps"]) > 1
        for lab, w, ch in R.made:
            n += 1
            ok = {"hash", RAW} <= lab or given and "left by an earlier run" in lab
            cx.check(ok, "digest of the current input", "KeyInfo::Make(%s)" % f.T[f.d["ps"][0]["t"]].get("s", "?").replace("std::shared_ptr<", "").strip("> "),
                     "the digest of the keys is taken from a file left by an earlier run instead of the rows of this input" if "left by an earlier run" in lab else "the digest of the keys does not cover the rows of the input", w, [ch])
    cx.floor("key digests made", n, 2)
    for f in p.byname.get("psi::JoinProcessor::JoinProcessor", ()):
        if not any("v2::PsiConfig" in f.T[q["t"]].get("s", "") or f.T[q["t"]].get("rec", "").endswith("v2::PsiConfig") for q in f.d["ps"]):
            continue
        R = Digest()
        I, outs = analyse(p, R, f)
        for st, _ in outs:
            for fld in ("sorted_input_path_", "key_info_path_"):
                cx.check("new name" in I.deep(st, RV(I.rd(st, SELF + (fld,)), SELF + (fld,))), "digest of the current input", fld,
                         "%s is not new to the run: sorted rows and digest of an earlier input in the same folder would be reused" % fld, "%s:%d" % (f.file, f.line))
    # ---- UB-PSI
    f = fn(p, "psi::UbPsiCacheProvider::UbPsiCacheProvider")
    R = Size()
    I, outs = analyse(p, R, f)
    cx.check(outs and all(("complete",) in st.facts for st, _ in outs), "cache complete", "UbPsiCacheProvider", "a cache is opened although its length differs from the recorded item count", "%s:%d" % (f.file, f.line))
    U = "psi::ecdh::EcdhUbPsiServer::"
    k = 0
    for m in ("Online", "OfflineTransferCache"):
        R = Key()
        I, outs = analyse(p, R, fn(p, U + m), U[:-2])
        for lab, same, w, ch in R.servers:
            k += 1
            ok = "key of the cache" in lab and not lab & {"key file", "new key"} or same and "key file" in lab
            cx.check(ok, "key of the cache", "EcdhUbPsiServer::" + m, "the server evaluates with a key that has not been found equal to the one its cache was made with", w, [ch])
    R = Key()
    I, outs = analyse(p, R, fn(p, U + "OfflineGenCache"), U[:-2])
    for lab, sv, w, ch in R.caches:
        k += 1
        cx.check(sv and all(x == lab for x in sv) and lab & {"key file", "new key"}, "key of the cache", "EcdhUbPsiServer::OfflineGenCache", "the cache does not record the key its items are evaluated with", w, [ch])
    cx.floor("keys followed", k, 3)

"""C07 unbalanced PSI discloses matches only to the side configured to see them."""
from prog import AnalysisError
from ai import AV, RV, E0
from flow import *
from c05 import fn, effects
import models
from runner import analyse, SELF

SHUF, SEQ = "random order", "sequence"
U = "psi::ecdh::EcdhUbPsi"
PLAIN = {RAW, IDX, DUP}


class R(Flow):
    K = 6
    async_eager = True
    item_labels = frozenset([RAW, ORD])
    online = True

    def __init__(self):
        Flow.__init__(self)
        self.cache = []
        self.gotidx = False

    def no_inline(self, I, fn):
        if fn.f.startswith("psi::UbPsiCacheProvider::"):
            return True
        return fn.file.startswith(("psi/checkpoint/", "psi/cryptor/", "psi/utils/arrow", "psi/utils/table_utils", "psi/utils/csv", "psi/utils/key", "psi/utils/join", "psi/utils/index_store",
                                   "psi/utils/resource", "psi/utils/io", "psi/utils/multiplex", "psi/utils/ec_point", "psi/utils/trace", "psi/utils/sync.cc",
                                   "psi/algorithm/ecdh/ub_psi/basic_ecdh_oprf", "psi/algorithm/ecdh/ub_psi/ecdh_oprf_selector", "psi/algorithm/ecdh/ub_psi/ecdh_oprf.", "psi/algorithm/ecdh/ub_psi/ub_psi_cache"))

    def opaque_provider(self, I, cls):
        return not (cls and cls.endswith(("Wrapper", "ShuffledBatchProvider")))

    def recv_labels(self, I, st, n, obj, args):
        return frozenset([PEER, ORD])

    def special(self, I, st, n, b, cls, m, obj, args):
        if "EcdhOprf" in cls and "Psi" not in cls.rpartition("::")[2]:
            if m in ("Blind", "SimpleEvaluate", "FullEvaluate", "Evaluate") and args:
                return self.val(I, st, self.mask(self.deep(I, st, args[:1])), why=m)
            if m in ("Finalize", "Unblind") and args:
                return self.val(I, st, self.deep(I, st, args[-1:]), why=m)
        if b == "psi::ComputeIndicesWithDupCnt":
            return self.val(I, st, (), {"peer_indices": (IDX,), "self_indices": (IDX,), "peer_dup_cnt": (IDX,)}, "matches")
        if m in READ and "UbPsiCacheProvider" in (self.dyncls(I, st, obj) or cls):
            it = frozenset([MASK])
            if m == "ReadNextShuffledBatch":
                return self.val(I, st, (), {"batch_items": it, "batch_indices": (), "shuffled_indices": (IDX,), "dup_cnts": (DUP,)}, "cache")
            if m == "ReadNextBatchWithDupCnt":
                return self.val(I, st, (), {"first": it, "second": (DUP,)}, "cache")
            return self.val(I, st, it, why="cache")
        if m in ("GetBatchProvider", "GetKeysProviderWithDupCnt"):
            l = I.tmp("provider")
            st.store[l] = I.fresh("provider", self.item_labels)
            return [(st, RV(AV(I.T.mk("&", l), self.item_labels, (l,), ()), None))]
        if m in ("shared_from_this",):
            return None
        if m == "SaveData" and cls.endswith("UbPsiCache") and args:
            if not I.dry:
                self.cache.append((self.fname(I), I.where(n), self.deep(I, st, args[:1]), I.chain()))
            return [(st, RV(I.fresh("void"), None))]
        if b in ("std::shuffle", "std::random_shuffle") and len(args) >= 2:
            for l in args[0].av.ref:
                base = l[:-1] if l[-1:] == ("[]",) else l
                self.strip_order(I, st, base)
                a = I.rd(st, base + ("[]",))
                st.store[base + ("[]",)] = AV(a.t, (a.lab | {SHUF}) - {SEQ}, a.ref, a.clo)
            return None
        if b == "std::iota" and len(args) >= 2:
            for l in args[0].av.ref:
                base = l[:-1] if l[-1:] == ("[]",) else l
                st.store[base + ("[]",)] = I.fresh("sequence", frozenset([SEQ]))
            return [(st, RV(I.fresh("void"), None))]
        if m in ("at", "operator[]") and obj is not None and args and SHUF in self.deep(I, st, args[:1]) and SEQ not in self.deep(I, st, args[:1]):
            lab = self.deep(I, st, [obj])
            if ORD in lab:
                return self.val(I, st, lab - {ORD}, why="permuted")
        if m == "RecvCacheIndexes":
            self.gotidx = True
            st.add(("eff", "receives matches"))
        if m == "SendServerCacheIndexes":
            st.add(("eff", "sends matches"))
        return None

    def record(self, I, st, n, dst, args, tag=None):
        Flow.record(self, I, st, n, dst, args, tag)
        lab = self.deep(I, st, args)
        for x in (IDX, DUP, MASK, DUAL):
            if x in lab:
                st.add(("eff", "sent " + x))


def run(cx):
    p = cx.prog(scope=("psi/algorithm/ecdh/ub_psi", "psi/utils/"))
    cx.rule("labels (item, masked item, doubly masked item, duplicate count, matched index, submission order) follow every value from the readers and the network to every send and to the server's cache, "
            "for every valuation of client_get_result and server_get_result")
    cx.trust("the cache file written by the server holds what SaveData is given", "ComputeIndicesWithDupCnt yields the matched indices", "GetIndicesWithDupCnt is exact")
    n = 0

    def sends(what, f, r, forbidden, wh):
        for fname, w, dst, lab, ch, tag in r.sends:
            for x in forbidden:
                cx.check(x not in lab, "not disclosed", "%s: %s in %s" % (what, x, fname), "%s is sent to the other side in %s, which is not configured to see it" % (x, what), w, [ch])
            cx.check(not (tag & {RAW, IDX, DUP}), "message tag", "%s: %s" % (what, fname), "a message tag depends on the input", w, [ch])
        return len(r.sends)

    for side, mine in (("Client", "client_get_result"), ("Server", "server_get_result")):
        f = fn(p, U + side + "::Online")
        wh = "%s:%d" % (f.file, f.line)
        for c in (False, True):
            for s in (False, True):
                def setup(I, st):
                    st.store[SELF + ("config_", "client_get_result")] = I.cst(c)
                    st.store[SELF + ("config_", "server_get_result")] = I.cst(s)
                r = R()
                I, outs = analyse(p, r, f, None, setup)
                if not outs:
                    raise AnalysisError("no end of %s reached" % f.f)
                what = "unbalanced %s, client %s, server %s" % (side.lower(), "entitled" if c else "not entitled", "entitled" if s else "not entitled")
                forb = {RAW}
                if side == "Server":
                    forb |= {IDX, DUP, MASK}
                    if not c:
                        forb |= {ORD}
                else:
                    forb |= {DUAL, PEER}
                    if not s:
                        forb |= {IDX, DUP}
                n += sends(what, f, r, sorted(forb), wh)
                eff = set().union(*[effects(st) for st, _ in outs])
                alle = set(effects(outs[0][0])).intersection(*[effects(st) for st, _ in outs])
                need = {"sent " + MASK} if side == "Client" else {"sent " + DUAL}
                if side == "Client" and s:
                    need |= {"sent " + IDX, "sent " + DUP}
                for x in sorted(need):
                    cx.check(x in eff, "provided", "%s: %s" % (what, x[5:]), "the other side never receives the %s it is entitled to" % x[5:], wh)
                if side == "Client":
                    x = "sends matches"
                else:
                    x = "receives matches"
                if s:
                    cx.check(x in alle, "provided", "%s: %s" % (what, x), "a path ends without the matched indices being %s" % ("sent" if side == "Client" else "received"), wh)
                else:
                    cx.check(x not in eff, "not disclosed", "%s: %s" % (what, x), "the matched indices are exchanged although the server is not entitled to the result", wh)
                n += 2
        for m in ("OfflineTransferCache",) + (("OfflineGenCache",) if side == "Server" else ()):
            g = fn(p, U + side + "::" + m)
            r = R()
            I, outs = analyse(p, r, g, None)
            what = "unbalanced %s %s" % (side.lower(), m)
            wh = "%s:%d" % (g.file, g.line)
            n += sends(what, g, r, sorted({RAW, PEER, DUAL, IDX, ORD}), wh) + 1
            lab = set().union(*([x[3] for x in r.sends] + [frozenset()]))
            if side == "Server" and m == "OfflineTransferCache":
                cx.check(MASK in lab, "provided", what, "the server's evaluated items are never transferred", wh)
            if m == "OfflineGenCache":
                cx.check(bool(r.cache), "provided", what, "no evaluated item is stored", wh)
                for fname, w, lb, ch in r.cache:
                    cx.check(not lb & {RAW, PEER}, "cache holds evaluated items", "%s in %s" % (what, fname), "an item is stored in the transferable cache without being evaluated", w, [ch])
                    cx.check(ORD not in lb, "cache is permuted", "%s in %s" % (what, fname), "the evaluated items are stored in input order", w, [ch])
                    cx.check(MASK in lb, "provided", "%s in %s" % (what, fname), "something other than evaluated items is stored", w, [ch])
    cx.floor("obligations", n, 20)

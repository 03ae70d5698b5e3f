"""Information-flow rule shared by the disclosure properties: labels carried by values from their sources through the
protocol code to the network sends, under a fixed valuation of ranks and configuration."""
from ai import Rule, AV, RV, E0, Interp
import models
from runner import SELF

RAW, MASK, PEER, DUAL, DUP, IDX, ORD = "item", "masked item", "peer item", "doubly masked item", "duplicate count", "row index", "input order"
ALLRANK = 2 ** 64 - 1
LINK = "yacl::link::Context"
SEND = {"Send", "SendAsync", "SendAsyncThrottled", "SendInternal", "SendAsyncInternal"}
GATHER = {"yacl::link::AllGather": 1, "yacl::link::AllGatherV": 1, "yacl::link::Gather": 1, "yacl::link::GatherV": 1, "yacl::link::Broadcast": 1,
          "yacl::link::BroadcastV": 1, "yacl::link::Scatter": 1, "yacl::link::ScatterV": 1}


READ = {"ReadNextBatch", "ReadNextBatchWithDupCnt", "ReadNextLabeledBatch", "ReadNextShuffledBatch", "ReadNext", "ReadAll"}


class Flow(Rule):
    K = 10
    sizelab = False
    for_atleast = rfor_atleast = True
    inline_max = 18
    rank, world = 0, 2
    hook_save = True
    item_labels = frozenset([RAW])

    def __init__(self):
        self.sends = []      # (function, where, destination, labels, chain)
        self.saves = []

    # ---- helpers
    def val(self, I, st, lab, parts=None, why="src"):
        """A fresh value whose elements carry `lab` (and whose members carry what parts says)."""
        l = I.tmp(why)
        st.store[l] = I.fresh(why, frozenset(lab))
        for p, x in (parts or {}).items():
            st.store[l + (p,)] = I.fresh(p, frozenset(x))
        return [(st, RV(st.store[l], l))]

    def deep(self, I, st, args):
        lab = set()
        for a in args:
            lab |= I.deep(st, a)
        return frozenset(x for x in lab if isinstance(x, str))

    def fname(self, I):
        f = I.fr
        while f is not None and (f.fn is None or not getattr(f.fn, "u", None)):
            f = f.up
        return f.fn.f if f and f.fn else "?"

    def peer_of(self, I, st, obj):
        """Name of the other side of a link, when the link is a derived two-party one."""
        for l in ([obj.loc] if obj.loc is not None else []) + list(obj.av.ref):
            a = st.store.get(l + ("@peer",))
            if a is not None:
                return I.isc(a)[1]
        return None

    def record(self, I, st, n, dst, args, tag=None):
        if I.dry:
            return
        self.sends.append((self.fname(I), I.where(n), dst, self.deep(I, st, args), I.chain(), self.deep(I, st, tag) if tag else E0))

    def dest(self, I, st, obj, a):
        p = self.peer_of(I, st, obj)
        if p is not None:
            return p
        c, v = I.isc(a.av)
        return v if c else None

    # ---- hooks
    def call(self, I, st, n, f, obj, args):
        b = models.strip(f)
        cls, _, m = b.rpartition("::")
        r = self.special(I, st, n, b, cls, m, obj, args)
        if r is not None:
            return r
        if cls == LINK and obj is not None:
            p = self.peer_of(I, st, obj)
            if m == "Rank":
                return [(st, RV(I.cst(self.rank if p is None else 0), None))]
            if m in ("NextRank", "PrevRank") and (not args or I.isc(args[0].av)[0] and I.isc(args[0].av)[1] == 1 or not args):
                d = 1 if m == "NextRank" else -1
                return [(st, RV(I.cst((self.rank + d) % self.world if p is None else 1), None))]
            if m == "WorldSize":
                return [(st, RV(I.cst(self.world if p is None else 2), None))]
            if m in SEND and args:
                self.record(I, st, n, self.dest(I, st, obj, args[0]), args[1:2], args[2:3])
                return [(st, RV(I.fresh("void"), None))]
            if m in ("Recv", "RecvInternal"):
                return self.val(I, st, self.recv_labels(I, st, n, obj, args), why="recv")
            if m in ("Spawn",):
                l = (("h", I.fr.id, n["l"], "spawn"),)
                st.store[l + ("@cls",)] = I.cst(LINK)
                if p is not None:
                    st.store[l + ("@peer",)] = I.cst(p)
                return [(st, RV(AV(I.T.mk("&", l), E0, (l,), ()), None))]
        if b in GATHER:
            self.record(I, st, n, "all", args[1:2], args[-1:] if len(args) > 2 else [])
            return self.val(I, st, self.recv_labels(I, st, n, obj, args) | (self.deep(I, st, args[1:2]) if b.endswith(("AllGather", "AllGatherV", "Broadcast", "BroadcastV")) else E0), why="gather")
        if m in READ and "Provider" in cls and self.opaque_provider(I, self.dyncls(I, st, obj)):
            it = self.deep(I, st, [obj]) & {RAW, MASK, PEER, DUAL, ORD} or self.item_labels
            if m == "ReadNextBatchWithDupCnt":
                c = self.dyncls(I, st, obj)
                nodup = c and cls + "::" + m in I.P.byname and c + "::" + m not in I.P.byname    # inherits the default without counts
                return self.val(I, st, (), {"first": it, "second": () if nodup else (DUP,)}, "batch")
            if m == "ReadNextShuffledBatch":
                return self.val(I, st, (), {"batch_items": it, "batch_indices": (IDX,), "shuffled_indices": (IDX,), "dup_cnts": (DUP,)}, "batch")
            if m == "ReadNextLabeledBatch":
                return self.val(I, st, (), {"first": it, "second": it}, "batch")
            if m in ("ReadNext", "ReadAll"):
                r = self.val(I, st, (), {}, "batch")
                l = r[0][1].loc
                st.store[l + ("[]",)] = I.fresh("el")
                st.store[l + ("[]", "buf")] = I.fresh("buf", it)
                st.store[l + ("[]", "cnt")] = I.fresh("cnt", frozenset([DUP]))
                return r
            return self.val(I, st, it, why="batch")
        if m == "EccMask" and args:
            lab = self.mask(self.deep(I, st, args[:1]))
            return self.val(I, st, lab, why="masked")
        if m in ("HashInputs", "HashToCurve", "SerializeEcPoints", "SerializeEcPoint", "DeserializeEcPoints", "DeserializeEcPoint") and args:
            return self.val(I, st, self.deep(I, st, args[:1]), why=m)
        if m == "Save" and cls.endswith("EcPointStore") and self.hook_save:
            if not I.dry:
                self.saves.append((self.fname(I), I.where(n), self.deep(I, st, args[:1]), I.chain()))
            return [(st, RV(I.fresh("void"), None))]
        if b in ("std::sort", "std::stable_sort", "std::shuffle", "std::random_shuffle") and len(args) >= 2 and self.whole(I, args):
            for l in args[0].av.ref:
                self.strip_order(I, st, l)
                if l[-1:] == ("[]",):
                    self.strip_order(I, st, l[:-1])
        return None

    def dyncls(self, I, st, obj):
        for l in ([obj.loc] if obj is not None and obj.loc is not None else []) + (list(obj.av.ref) if obj is not None else []):
            a = st.store.get(l + ("@cls",))
            if a is not None and I.isc(a)[0]:
                return I.isc(a)[1]
        return None

    def opaque_provider(self, I, cls):
        """Readers proper (files, memory) are sources; adaptors around another reader are followed."""
        return not (cls and cls.endswith("Wrapper"))

    def special(self, I, st, n, b, cls, m, obj, args):
        return None

    def recv_labels(self, I, st, n, obj, args):
        return frozenset([PEER])

    def mask(self, lab):
        out = set()
        for x in lab:
            if x == PEER:
                out.add(DUAL)
            elif x == RAW:
                out.add(MASK)
            else:
                out.add(x)
        return frozenset(out)

    def whole(self, I, args):
        """The two iterators are not visibly a part of the container only."""
        T = I.T

        def part(t, last):
            k = T.tab[t]
            if k[0] == "op" and k[1] in ("+", "-"):
                return not (last and k[1] == "+" and any(T.tab[x][0] == "size" or "size" in T.show(x) for x in k[2:4]) and not any(T.tab[x][0] == "op" for x in k[2:4]))
            if k[0] == "it" and len(k) == 2 and T.tab[k[1]][0] == "it":
                return True
            return False
        return not part(args[0].av.t, False) and not part(args[1].av.t, True)

    def strip_order(self, I, st, l):
        for k in [k for k in list(st.store) if k[:len(l)] == l]:
            a = st.store[k]
            if ORD in a.lab:
                st.store[k] = AV(a.t, a.lab - {ORD}, a.ref, a.clo)
        a = I.rd(st, l)
        if ORD in a.lab:
            st.store[l] = AV(a.t, a.lab - {ORD}, a.ref, a.clo)


def sequence(prog, rule, fns, cls, setup, interp=Interp, budget=1500000):
    """Methods of one object, one after the other, from an arbitrary object state refined by setup."""
    from ai import St, Frame
    I = interp(prog, rule, budget)
    rule.I = I
    st = St()
    I.fr = Frame(0, None, fns[0].T, None, None, None, fns[0].tu, "root")
    st.store[SELF + ("@cls",)] = I.cst(cls)
    setup(I, st)
    states = [st]
    for f in fns:
        nx = []
        for s in states:
            I.fr.T = f.T
            av = [RV(I.rd(s, (("p", q["n"] or str(i)),)), (("p", q["n"] or str(i)),)) for i, q in enumerate(f.d["ps"])]
            nx += [x for x, _ in I.invoke(f, s, SELF, av, None)]
        states = I.merge(nx)
    return I, states

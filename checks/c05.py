"""C05 results and counts only for entitled parties."""
from prog import AnalysisError, fn_nodes
from ai import AV, RV, E0
from flow import *
import models
from runner import analyse, SELF

UB = "psi::ecdh::EcdhUbPsi"
CNT = ("self_intersection_count", "peer_intersection_count", "inter_unique_cnt", "original_count", "join_intersection_count")


class R(Flow):
    K = 8
    async_eager = True      # what a task does counts as done: that it is waited for is another property
    for_atleast = rfor_atleast = True

    def __init__(self, link_rank=0):
        Flow.__init__(self)
        self.rank = link_rank

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/checkpoint/", "psi/cryptor/", "psi/utils/arrow", "psi/utils/batch", "psi/utils/table_utils", "psi/utils/csv", "psi/utils/key", "psi/utils/join",
                                   "psi/utils/resource", "psi/utils/io", "psi/utils/multiplex", "psi/utils/ec_point", "psi/utils/hash_bucket", "psi/algorithm/ecdh/ub_psi/ecdh_oprf",
                                   "psi/algorithm/ecdh/ub_psi/ub_psi_cache", "psi/algorithm/ecdh/common", "psi/utils/bucket", "psi/utils/trace", "psi/utils/sync.cc"))

    def special(self, I, st, n, b, cls, m, obj, args):
        if m == "DealResultIndex" and cls.startswith("psi::"):
            st.add(("eff", "joined"))
            return self.val(I, st, (), {c: (c,) for c in CNT}, "stat")
        if m == "GenerateResult" and b.startswith("psi::"):
            st.add(("eff", "result written"))
            SEEN.add(I.where(n))
            return [(st, RV(I.fresh("void"), None))]
        if m in ("WriteCache",) and cls == "psi::IndexWriter":
            st.add(("eff", "index written"))
            return [(st, RV(I.fresh("n"), None))]
        if m == "Add" and cls.endswith("Receiver"):
            st.add(("eff", "result delivered"))
            return [(st, RV(I.fresh("void"), None))]
        if m == "BroadcastResult" and b.startswith("psi::"):
            st.add(("eff", "broadcast"))
            return None


def fn(p, name, sig=None):
    fs = [f for f in p.byname.get(name, []) if f.d.get("body") and (sig is None or sig(f))]
    if len(fs) != 1:
        raise AnalysisError("%d functions named %s" % (len(fs), name))
    return fs[0]


SEEN = set()
EFF = ("joined", "result written")


def effects(st):
    return {f[1] for f in st.facts if f[0] == "eff"}


def count(I, st, f="intersection_count"):
    a = I.rd(st, SELF + ("report_", f))
    c, v = I.isc(a)
    if c:
        return v - (1 << 64) if isinstance(v, int) and v >= 1 << 63 else v
    return a


def ends(cx, what, f, I, outs, entitled, labels=True):
    wh = "%s:%d" % (f.file, f.line)
    if not outs:
        raise AnalysisError("no end of %s reached" % f.f)
    for st, _ in outs:
        e = effects(st)
        c = count(I, st)
        if entitled:
            for x in EFF:
                cx.check(x in e, "entitled", "%s: %s" % (what, x), "a path ends without the result being %s although the party is entitled (%s)" % (x, what), wh)
            ok = isinstance(c, AV) and set(c.lab) == {"self_intersection_count"}
            cx.check(ok, "entitled", "%s: count" % what, "the reported intersection count is not this party's intersection size (%s)" % what, wh)
            k = count(I, st, "intersection_key_count")
            cx.check(isinstance(k, AV) and set(k.lab) == {"inter_unique_cnt"}, "entitled", "%s: key count" % what, "the reported key count is not the number of distinct common keys (%s)" % what, wh)
        else:
            for x in EFF:
                cx.check(x not in e, "not entitled", "%s: %s" % (what, x), "a result is %s although the party is not entitled to it (%s)" % (x, what), wh)
            cx.check(c == -1 if not isinstance(c, AV) else False, "not entitled", "%s: count is -1" % what, "the reported intersection count is not -1 on a path of a party that is not entitled (%s)" % what, wh)


def run(cx):
    p = cx.prog(scope=("psi/interface", "psi/algorithm/", "psi/legacy/", "psi/utils/bucket"))
    cx.rule("for every role and entitlement valuation, every abstract path to the end of the reporting code must have written the result and reported this party's count when entitled, "
            "and must have written nothing and reported -1 otherwise")
    cx.trust("JoinProcessor::GenerateResult and psi::GenerateResult are the only writers of the result file", "SyncWait runs its task")
    role = {e["n"]: e["v"] for e in p.enums["psi::v2::Role"]["v"]}
    n = 0
    fin = fn(p, "psi::AbstractPsiParty::Finalize")
    for rn in ("ROLE_RECEIVER", "ROLE_SENDER"):
        for bc in (False, True):
            def setup(I, st):
                st.store[SELF + ("role_",)] = I.cst(role[rn])
                st.store[SELF + ("config_", "protocol_config", "broadcast_result")] = I.cst(bc)
            I, outs = analyse(p, R(), fin, None, setup)
            n += 1
            ends(cx, "%s, broadcast %s" % (rn[5:].lower(), "on" if bc else "off"), fin, I, outs, rn == "ROLE_RECEIVER" or bc)
    # the role is fixed by the party class
    for side, rn in (("Receiver", "ROLE_RECEIVER"), ("Sender", "ROLE_SENDER")):
        cs = [f for f in p.fns.values() if f.cls == "psi::AbstractPsi" + side and f.d.get("ctor") and f.d.get("inits")]
        vals = []
        for c in cs:
            for i in c.d["inits"]:
                for x in walk(i):
                    if x["k"] == "enum" and "ROLE_" in str(x.get("n", "")):
                        vals.append(x["n"].split("::")[-1])
        if not vals:
            raise AnalysisError("role passed by AbstractPsi%s not found" % side)
        cx.check(set(vals) == {rn}, "role", "AbstractPsi" + side, "the %s party is constructed with role %s" % (side.lower(), sorted(set(vals))), "%s:%d" % (cs[0].file, cs[0].line))
        n += 1
    for side, mine in (("Client", "client_get_result"), ("Server", "server_get_result")):
        on = fn(p, UB + side + "::Online")
        for c in (False, True):
            for s in (False, True):
                def setup(I, st):
                    st.store[SELF + ("config_", "client_get_result")] = I.cst(c)
                    st.store[SELF + ("config_", "server_get_result")] = I.cst(s)
                I, outs = analyse(p, R(), on, None, setup)
                n += 1
                ends(cx, "unbalanced %s, client %s, server %s" % (side.lower(), "entitled" if c else "not entitled", "entitled" if s else "not entitled"), on, I, outs, c if side == "Client" else s)
        for m in ("OfflineTransferCache",) + (("OfflineGenCache",) if side == "Server" else ()):
            f = fn(p, UB + side + "::" + m)
            I, outs = analyse(p, R(), f, None)
            n += 1
            ends(cx, "unbalanced %s, %s" % (side.lower(), m), f, I, outs, False)
    # operators and legacy interface
    leg = fn(p, "psi::BucketPsi::ProduceOutput")
    for bc in (False, True):
        for rr in (0, 1):
            def setup(I, st):
                st.store[SELF + ("config_", "broadcast_result")] = I.cst(bc)
                st.store[SELF + ("config_", "receiver_rank")] = I.cst(rr)
                st.store[SELF + ("config_", "psi_type")] = I.cst(1)
            r = R(0)
            I, outs = analyse(p, r, leg, None, setup)
            n += 1
            what = "bucket interface, broadcast %s, %s" % ("on" if bc else "off", "receiver" if rr == 0 else "other party")
            wh = "%s:%d" % (leg.file, leg.line)
            for st, _ in outs:
                e = effects(st)
                a = I.rd(st, (("p", "report"), "intersection_count"))
                k, v = I.isc(a)
                v = v - (1 << 64) if k and isinstance(v, int) and v >= 1 << 63 else v
                if bc or rr == 0:
                    cx.check("result written" in e, "entitled", what, "a path ends without the result being written", wh)
                    cx.check(not k and "size" in str(I.T.tab[a.t]) , "entitled", what + ": count", "the reported count is not the number of common rows", wh)
                else:
                    cx.check("result written" not in e, "not entitled", what, "a result is written for a party that is not entitled", wh)
                    cx.check(k and v == -1, "not entitled", what + ": count", "the reported count is not -1", wh)
    seq = fn(p, "psi::PsiOperator::OnSequenceRun")
    for cls, opts, fld in (("psi::kkrt::KkrtOperator", "broadcast_result", None), ("psi::rr22::Rr22Operator", "broadcast_result", None), ("psi::ecdh::EcdhOperator", None, None)):
        rcv = fn(p, cls + "::ReceiveResult")
        vals = [(rr, bc) for rr in (0, 1) for bc in (False, True)] if opts else [(0, None), (1, None), (ALLRANK, None)]
        for rr, bc in vals:
            def setup(I, st):
                l = (("h", 0, 0, "link"),)
                st.store[l + ("@cls",)] = I.cst(LINK)
                if opts:
                    st.store[SELF + ("opts_", "broadcast_result")] = I.cst(bc)
                    st.store[SELF + ("broadcast_result_",)] = I.cst(bc)
                    st.store[SELF + ("opts_", "receiver_rank")] = I.cst(rr)
                    st.store[SELF + ("is_recevicer_",)] = I.cst(rr == 0)
                else:
                    st.store[SELF + ("opts_", "target_rank")] = I.cst(rr)
            I, outs = analyse(p, R(0), rcv, cls, setup)
            ent = rr in (0, ALLRANK) or bool(bc)
            what = "%s, %s%s" % (cls.split("::")[-1], "receiver" if rr == 0 else "all" if rr == ALLRANK else "other party", "" if bc is None else ", broadcast %s" % ("on" if bc else "off"))
            n += 1
            for st, rv in outs:
                k, v = I.isc(rv.av)
                cx.check(k and bool(v) == ent, "operator gate", what, "ReceiveResult answers %s" % (v if k else "something undetermined"), "%s:%d" % (rcv.file, rcv.line))
    for cls in ("psi::kkrt::KkrtOperator",):
        for rr in (0, 1):
            for bc in (False, True):
                def setup(I, st):
                    st.store[SELF + ("opts_", "broadcast_result")] = I.cst(bc)
                    st.store[SELF + ("broadcast_result_",)] = I.cst(bc)
                    st.store[SELF + ("opts_", "receiver_rank")] = I.cst(rr)
                    st.store[SELF + ("is_recevicer_",)] = I.cst(rr == 0)
                r = RSeq(0)
                I, outs = analyse(p, r, seq, cls, setup)
                n += 1
                ent = rr == 0 or bc
                got = [("result delivered" in effects(st)) for st, _ in outs]
                what = "operator run, %s, broadcast %s" % ("receiver" if rr == 0 else "other party", "on" if bc else "off")
                if ent:
                    cx.check(any(got), "entitled", what, "no path delivers the result to the store", "%s:%d" % (seq.file, seq.line))
                else:
                    cx.check(not any(got), "not entitled", what, "a path delivers a result to a party that is not entitled", "%s:%d" % (seq.file, seq.line))
    h = fn(p, "psi::HandleBucketResultBySender")
    for bc in (False, True):
        I, outs = analyse(p, R(0), h, None, None, args={"broadcast_result": lambda I, st: RV(I.cst(bc), None)})
        n += 1
        got = ["index written" in effects(st) for st, _ in outs]
        what = "bucket result of the sender, broadcast %s" % ("on" if bc else "off")
        cx.check(any(got) == bc, "entitled" if bc else "not entitled", what, "no path keeps the result" if bc else "a result is kept although it is not broadcast", "%s:%d" % (h.file, h.line))
    # what these functions put into the report is what the caller gets
    for name, cls, last in (("psi::AbstractPsiParty::Run", "psi::AbstractPsiParty", {"Finalize": "ret"}), ("psi::AbstractUbPsiParty::Run", "psi::AbstractUbPsiParty", {"Online": "self", "Offline": "self", "OfflineGenCache": "self", "OfflineTransferCache": "self"}),
                            ("psi::BucketPsi::Run", "psi::BucketPsi", {"ProduceOutput": "arg"}), ("psi::RunPsi", None, {"Run": "ret"}), ("psi::RunUbPsi", None, {"Run": "ret"}), ("psi::RunLegacyPsi", None, {"Run": "ret"})):
        f = fn(p, name)
        r = Thru(last)
        I, outs = analyse(p, r, f, cls)
        n += 1
        for st, rv in outs:
            c = I.rd(st, (rv.loc or ("?",)) + ("intersection_count",)) if rv.loc is not None else rv.av
            cx.check("final" in c.lab and I.known(st, I.cmp("<", c.t, I.T.c(0))) is None, "report unchanged", f.f, "the intersection count handed back is not the one that was determined from the entitlement", "%s:%d" % (f.file, f.line))
    # the size of the intersection is counted in this party's rows
    f = fn(p, "psi::KeyInfo::ApplyPeerDupCnt")
    r = Stat()
    I, outs = analyse(p, r, f, "psi::KeyInfo")
    n += 1
    for st, rv in outs:
        for fld, need, never in (("self_intersection_count", "self", "peer"), ("peer_intersection_count", "peer", "self")):
            lab = I.rd(st, rv.loc + (fld,)).lab if rv.loc is not None else E0
            cx.check(need in lab and never not in lab, "counts", "StatInfo " + fld, "the count is not made of the %s party's repetitions of the common keys" % ("own" if need == "self" else "other"), "%s:%d" % (f.file, f.line))
        lab = I.rd(st, rv.loc + ("inter_unique_cnt",)).lab if rv.loc is not None else E0
        cx.check("keys" in lab and not lab & {"self", "peer"}, "counts", "StatInfo inter_unique_cnt", "the key count is not the number of distinct common keys", "%s:%d" % (f.file, f.line))
    # the output path of an unbalanced party
    cs = [f for f in p.fns.values() if f.cls == "psi::JoinProcessor" and f.d.get("ctor") and any("UbPsiConfig" in f.T[q["t"]].get("s", "") for q in f.d["ps"])]
    cs = [f for f in cs if any(x["k"] == "mem" and x.get("n") == "output_path_" for x in fn_nodes(f))]
    if len(cs) != 1:
        raise AnalysisError("JoinProcessor constructor not found")
    f = cs[0]
    q = [q["n"] for q in f.d["ps"] if "UbPsiConfig" in f.T[q["t"]].get("s", "")][0]
    for side, mine in (("CLIENT", "client_get_result"), ("SERVER", "server_get_result")):
        for c in (False, True):
            for s in (False, True):
                def setup(I, st):
                    st.store[(("p", q), "client_get_result")] = I.cst(c)
                    st.store[(("p", q), "server_get_result")] = I.cst(s)
                    st.store[(("p", q), "role")] = I.cst(role["ROLE_" + side])
                    st.store[(("p", q), "output_config", "path")] = I.fresh("path", frozenset(["output path"]))
                I, outs = analyse(p, Thru({}), f, "psi::JoinProcessor", setup)
                n += 1
                got = any("output path" in I.rd(st, SELF + ("output_path_",)).lab for st, _ in outs)
                what = "unbalanced %s, client %s, server %s" % (side.lower(), "entitled" if c else "not entitled", "entitled" if s else "not entitled")
                ent = c if side == "CLIENT" else s
                cx.check(got == ent, "output path", what, "the party %s a result file" % ("has no path for" if ent else "not entitled to the result is given a path for"), "%s:%d" % (f.file, f.line))
    for f in p.fns.values():
        if not f.d.get("body") or not f.file.startswith("psi/") or f.name == "GenerateResult":
            continue
        for x in fn_nodes(f):
            if x["k"] == "call" and (models.strip(x.get("f") or "").endswith("Processor::GenerateResult") or models.strip(x.get("f") or "") == "psi::GenerateResult"):
                w = "%s:%d" % (f.file, x["l"])
                cx.check(w in SEEN, "result writers", f.f, "a result is written here, outside the code that checks who is entitled", w)
    cx.floor("configurations analysed", n, 38)


class Thru(Flow):
    """Everything but the function itself is opaque; what the last step reports is labelled."""
    K = 10
    async_eager = True

    def __init__(self, last):
        Flow.__init__(self)
        self.last = last

    def no_inline(self, I, fn):
        return not fn.file.startswith("psi/utils/sync") and fn.d.get("body") is not None and "::Check" not in fn.f

    def special(self, I, st, n, b, cls, m, obj, args):
        how = self.last.get(m)
        if how and cls.startswith("psi::"):
            v = lambda: I.fresh("final", frozenset(["final"]))
            if how == "ret":
                return self.val(I, st, (), {"intersection_count": ("final",)}, "report")
            if how == "self":
                st.store[SELF + ("report_", "intersection_count")] = v()
                return self.val(I, st, ())
            for a in args:
                for l in [a.loc] if a.loc is not None else []:
                    st.store[l + ("intersection_count",)] = v()
            return self.val(I, st, ())
        return None


class Stat(Flow):
    K = 10
    sizelab = False

    def no_inline(self, I, fn):
        return fn.f.rpartition("::")[2] != "ApplyPeerDupCnt"

    def special(self, I, st, n, b, cls, m, obj, args):
        if m == "GetBatchInfo":
            r = self.val(I, st, ("keys",), None, "info")
            l = r[0][1].loc
            st.store[l + ("@size",)] = I.fresh("size", frozenset(["keys"]))
            for x, y in (("self_dup_cnt", ("self",)), ("peer_dup_cnt", ("peer",)), ("start_index", ())):
                st.store[l + ("[]", x)] = I.fresh(x, frozenset(y))
            return r
        return None


class RSeq(R):
    def no_inline(self, I, fn):
        return R.no_inline(self, I, fn) or fn.file.startswith("psi/algorithm/kkrt/kkrt_psi")


def walk(n):
    if isinstance(n, dict):
        if "k" in n:
            yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)

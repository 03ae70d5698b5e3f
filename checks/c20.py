"""C20 counting PIR releases its permutation seed only after the row count proof has been verified."""
from prog import AnalysisError
from ai import AV, RV, E0
from flow import *
from c05 import fn, effects
import models
from runner import analyse, SELF

D = "psi::dkpir::"
SK = "psi/wrapper/", "psi/utils/csv", "psi/algorithm/dkpir/common", "psi/algorithm/dkpir/sender_cnt"


class R(Flow):
    """SenderOnline with the sender's own methods followed."""
    K = 8
    verdict = None      # what CheckRowCount answers
    inline = False

    def __init__(self):
        Flow.__init__(self)
        self.bad, self.seen = [], {}

    def no_inline(self, I, fn):
        return fn.file.startswith(SK)

    def rep(self, I, n, rule, msg):
        if not I.dry:
            self.bad.append((rule, self.fname(I), msg, I.where(n), I.chain()))

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if b == "yacl::crypto::SecureRandSeed" or b.startswith("yacl::crypto::SecureRandU"):
            return V(("seed",), why="seed")
        if cls == D + "DkPirSender":
            if m in ("LoadDB", "LoadSecretKey", "ReceiveRequest"):
                return V((m,))
            if m in ("RunOPRF",):
                st.add(("eff", "oprf"))
                return V(("oprf",))
            if m == "ReceiveRowCountCt":
                st.add(("eff", "committed"))
                return V(("ct",))
            if m == "ReceiveRowCount":
                return V(("claim",))
            if m == "RunQuery":
                c, v = I.isc(args[2].av) if len(args) > 2 else (False, None)
                if not c:
                    raise AnalysisError("kind of query not known at the call of RunQuery")
                self.seen["count query" if v else "data query"] = 1
                if not v and not self.skip and ("eff", "committed") not in st.facts:
                    self.rep(I, n, "row count committed first", "the rows are answered before the receiver has committed to the encrypted row count")
                return V()
            if m == "CheckRowCount":
                self.seen["check"] = 1
                lab = [self.deep(I, st, [a]) for a in args]
                out = []
                for v in (True, False):
                    s2 = st.copy()
                    if v and len(lab) == 2 and "ct" in lab[0] and "claim" in lab[1]:
                        s2.add(("eff", "verified"))
                    if not v:
                        s2.add(("eff", "refused"))
                    out.append((s2, RV(I.cst(v), None)))
                return out
            if m == "SaveRowCount":
                if ("eff", "verified") not in st.facts:
                    self.rep(I, n, "verified before it is used", "the row count is recorded as verified although it has not been verified")
                return V()
        if (cls == LINK and m in SEND) or b in GATHER or (m in ("send", "Send") and "hannel" in cls):
            lab = self.deep(I, st, args)
            if "seed" in lab:
                self.seen["seed sent"] = 1
                if ("eff", "verified") not in st.facts:
                    self.rep(I, n, "seed only after verification", "the permutation seed is sent on a path where the row count proof has not been verified")
            if cls == LINK and m in SEND:
                return V()
        return None


class Field(Flow):
    """One method, fields labelled by setup."""
    K = 8

    def __init__(self):
        Flow.__init__(self)
        self.seen, self.bad = {}, []

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/wrapper/", "psi/utils/csv"))

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if m == "GetX":
            return V(self.deep(I, st, [obj]), why=m)
        if m in ("MulDoubleBase", "MulBase", "Mul", "Add", "AddInplace"):
            return V(self.deep(I, st, args), why=m)
        if m == "PointEqual":
            out = []
            for v in (True, False):
                s2 = st.copy()
                if v:
                    s2.add(("compared", self.deep(I, st, args)))
                out.append((s2, RV(I.cst(v), None)))
            return out
        if b.startswith(("operator*", "operator+", "yacl::math::")) or m.startswith("operator") and "MPInt" in cls:
            return V(self.deep(I, st, args + ([obj] if obj is not None else [])), why=m)
        return None


class Oprf(Field):
    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if b == "std::shuffle" and len(args) >= 3:
            g = self.deep(I, st, args[2:3])
            for l in args[0].av.ref:
                base = l[:-1] if l[-1:] == ("[]",) else l
                a = I.rd(st, base)
                I.kill(st, base)
                st.store[base] = AV(a.t, frozenset(["permuted"]) if "seed" in g else frozenset(), a.ref, a.clo)
                st.store[base + ("[]",)] = I.fresh("el", frozenset(["permuted"]) if "seed" in g else frozenset())
            return V()
        if "YaclReplayUrbg" in b:
            lab = self.deep(I, st, args)
            r = V(lab)
            if obj is not None and obj.loc is not None:
                st.store[obj.loc] = I.fresh("gen", lab)
            return r
        if m == "enqueue" and args:
            for s2, _ in I.call_closures(n, st.copy(), args[0], [RV(I.fresh("x"), None) for _ in args[1:]]):
                pass
            return V()
        if cls.endswith("ECPoint") and m == "save":
            self.seen["answers written"] = 1
            if not I.dry and "permuted" not in self.deep(I, st, args):
                self.bad.append((I.where(n), I.chain()))
            return V()
        if cls.endswith("Sender") and m == "GenerateOPRFResponse":
            st.add(("eff", "plain"))
            return V()
        return Field.special(self, I, st, n, b, cls, m, obj, args)


def run(cx):
    p = cx.prog(scope=("psi/algorithm/dkpir/",))
    cx.rule("typestate over SenderOnline for both settings and both verdicts: a send whose data carries the seed must follow a successful verification of the received ciphertext against the received count; "
            "the verification and the answers are traced to the secret polynomial, key, query count and seed by labels")
    cx.trust("elliptic curve, ElGamal and APSI primitives", "std::shuffle permutes")
    wh = lambda f: "%s:%d" % (f.file, f.line)
    n = 0
    on = fn(p, D + "SenderOnline")
    ps = [q["n"] for q in on.d["ps"]]
    for skip in (False, True):
        r = R()
        r.skip = skip

        def setup(I, st):
            st.store[(("p", ps[0]), "skip_count_check")] = I.cst(skip)
        I, outs = analyse(p, r, on, None, setup)
        what = "SenderOnline, count check %s" % ("off" if skip else "on")
        for rule, f, msg, w, ch in r.bad[:4]:
            cx.fail(rule, what + " in " + f, msg, w, [ch])
        if not r.bad:
            cx.ok("seed only after verification", what)
        if not skip:
            cx.check("check" in r.seen, "row count is verified", what, "the row count is never verified", wh(on))
            cx.check("seed sent" in r.seen, "seed is released on success", what, "the seed is not sent after a successful verification", wh(on))
            cx.check("count query" in r.seen and "data query" in r.seen, "both queries answered", what, "the row count query or the data query is not answered", wh(on))
            ref = ver = 0
            for st, rv in outs:
                e = effects(st)
                if "refused" in e:
                    ref += 1
                    cx.check(I.isc(rv.av)[0] and I.isc(rv.av)[1] != 0, "failed verification ends the query", what, "the query ends successfully although the row count has not been verified", wh(on))
                ver += "verified" in e
            cx.check(ver, "verified against the commitment", what, "the verification does not compare the received ciphertext with the received row count", wh(on))
        else:
            cx.check("data query" in r.seen and "count query" not in r.seen, "count query only with the check", what, "the wrong kind of query is answered", wh(on))
        n += 5
    # constructor: the seed is drawn for this sender; the check needs key and polynomial
    f = [g for g in p.fns.values() if g.cls == D + "DkPirSender" and g.d.get("ctor") and g.d.get("body")]
    if len(f) != 1:
        raise AnalysisError("constructor of DkPirSender not found")
    r = R()
    r.skip = False
    I, outs = analyse(p, r, f[0], None, None)
    for st, _ in outs:
        for x in ("shuffle_seed_", "shuffle_counter_"):
            a = I.rd(st, SELF + (x,))
            cx.check("seed" in a.lab, "seed is fresh", "DkPirSender::" + x, "the permutation seed is not drawn from the secure generator for every query", wh(f[0]))
    # which database
    f = fn(p, D + "DkPirSender::RunQuery")
    q = [x["n"] for x in f.d["ps"]]

    class DB(Field):
        def special(self, I, st, n, b, cls, m, obj, args):
            if m in ("sender_db", "sender_cnt_db"):
                st.add(("eff", m))
                return self.val(I, st, (m,), why=m)
            return Field.special(self, I, st, n, b, cls, m, obj, args)
    for cnt in (True, False):
        I, outs = analyse(p, DB(), f, None, None, args={q[2]: lambda I, st: RV(I.cst(cnt), None)})
        for st, _ in outs:
            e = effects(st)
            cx.check(("sender_cnt_db" in e) == cnt and ("sender_db" in e) != cnt, "the database asked for", "RunQuery, count query %s" % cnt, "the %s query is answered from the other database" % ("count" if cnt else "data"), wh(f))
        n += 1
    # verification
    f = fn(p, D + "DkPirSender::CheckRowCount")
    q = [x["n"] for x in f.d["ps"]]
    r = Field()

    def setup(I, st):
        st.store[SELF + ("polynomial_",)] = I.fresh("poly", frozenset(["polynomial"]))
        st.store[SELF + ("polynomial_", "[]")] = I.fresh("poly", frozenset(["polynomial"]))
        st.store[SELF + ("query_count_",)] = I.fresh("qc", frozenset(["query count"]))
        st.store[SELF + ("secret_key_",)] = I.fresh("sk", frozenset(["secret key"]))
        st.store[(("p", q[0]), "c1")] = I.fresh("c1", frozenset(["c1"]))
        st.store[(("p", q[0]), "c2")] = I.fresh("c2", frozenset(["c2"]))
        st.store[(("p", q[1]),)] = I.fresh("rc", frozenset(["claim"]))
    I, outs = analyse(p, r, f, None, setup)
    need = {"polynomial", "query count", "secret key", "c1", "c2", "claim"}
    ok = 0
    for st, rv in outs:
        if I.isc(rv.av) in ((True, False), (True, 0)) or I.known(st, rv.av.t) is False:
            continue
        lab = set()
        for x in st.facts:
            if x[0] == "compared":
                lab |= x[1]
        ok += 1
        cx.check(need <= lab, "verification covers every value", "CheckRowCount", "the row count is accepted on a path where the comparison does not involve %s" % ", ".join(sorted(need - lab)), wh(f))
        n += 1
    cx.check(ok, "verification can succeed", "CheckRowCount", "no row count is ever accepted", wh(f))
    # the two numbers the equation uses are a*count + b*queries
    f = [g for g in p.byname[D + "ComputePoly"] if len(g.d["ps"]) == 3]
    for g in f:
        r = Field()
        qs = [x["n"] for x in g.d["ps"]]

        def setup(I, st):
            for x in qs[1:]:
                st.store[(("p", x),)] = I.fresh(x, frozenset([x]))
            st.store[(("p", qs[0]), "[]")] = I.fresh("poly", frozenset(["polynomial"]))
        I, outs = analyse(p, r, g, None, setup)
        for st, rv in outs:
            lab = I.deep(st, rv)
            cx.check({"polynomial", qs[1], qs[2]} <= set(lab), "verification covers every value", "ComputePoly", "the linear function ignores one of its inputs", wh(g))
    # query count and permuted answers
    f = fn(p, D + "DkPirSender::RunOPRF")
    for skip in (False, True):
        r = Oprf()

        def setup(I, st):
            st.store[SELF + ("shuffle_seed_",)] = I.fresh("seed", frozenset(["seed"]))
            st.store[SELF + ("shuffle_counter_",)] = I.fresh("ctr", frozenset(["counter"]))
            st.store[SELF + ("options_", "skip_count_check")] = I.cst(skip)
            st.store[SELF + ("query_count_",)] = I.cst(12345)
        I, outs = analyse(p, r, f, None, setup)
        for st, _ in outs:
            e = effects(st)
            if not skip:
                cx.check("plain" not in e, "answers are permuted", "RunOPRF", "the blinded keys are answered in their own order although the count check is on", wh(f))
            cx.check(I.isc(I.rd(st, SELF + ("query_count_",))) != (True, 12345), "query count is this query's", "RunOPRF", "the number of queried keys is not taken from the request", wh(f))
        for w, c in r.bad[:1]:
            cx.fail("answers are permuted", "ProcessQueries", "a blinded key is answered at a place the secret permutation does not decide", w, [c])
        if not skip:
            cx.check("answers written" in r.seen, "answers are permuted", "ProcessQueries writes", "the answers to the blinded keys were not found", wh(f))
        n += 2
    counts(cx, p, wh)
    cx.floor("obligations", n + len(cx.obl), 20)


def counts(cx, p, wh):
    """The row counts handed out are encryptions of the masked counts."""
    f = [g for g in p.fns.values() if g.f.endswith("::EncryptCount") and g.d.get("body")]
    if len(f) != 1:
        raise AnalysisError("EncryptCount not found")
    f = f[0]
    ps = [q["n"] for q in f.d["ps"]]

    class E(Field):
        def special(self, I, st, n, b, cls, m, obj, args):
            V = lambda lab=(), why="v": self.val(I, st, lab, None, why)
            if b.startswith("yacl::crypto::SecureRand"):
                return V(("random",), why="random")
            if m == "GetCount":
                return V(("count",))
            if m == "ComputePoly":
                return V(self.deep(I, st, args) | {"poly"})
            if m == "Encrypt":
                lab = self.deep(I, st, args)
                self.seen["encrypted"] = 1
                if not I.dry and not {"poly", "random", "count"} <= set(lab):
                    self.bad.append((I.where(n), "what is encrypted is not the row count masked by the random polynomial"))
                return V(("ciphertext",), why="ct")
            if m == "Serialize":
                return V(self.deep(I, st, [obj]))
            if b in ("std::memcpy", "memcpy") and len(args) >= 2:
                lab = self.deep(I, st, args[1:2])
                self.seen["stored"] = 1
                if not I.dry and "ciphertext" not in lab:
                    self.bad.append((I.where(n), "what is stored in the count database is not a ciphertext"))
                return V()
            if m == "Save":
                self.seen["saved"] = 1
                if not I.dry and "random" not in self.deep(I, st, args[:1]):
                    self.bad.append((I.where(n), "the polynomial saved is not the one drawn"))
                return V()
            return Field.special(self, I, st, n, b, cls, m, obj, args)
    r = E()
    I, outs = analyse(p, r, f, None, None)
    for w, msg in r.bad[:2]:
        cx.fail("counts are masked and encrypted", "EncryptCount", msg, w)
    if not r.bad:
        cx.ok("counts are masked and encrypted", "EncryptCount")
    cx.check("encrypted" in r.seen and "saved" in r.seen, "counts are masked and encrypted", "EncryptCount is complete", "the counts are not encrypted or the polynomial is not saved", wh(f))

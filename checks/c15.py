"""C15 failures reported by parsing, files and cryptographic calls lead out of the operation."""
import re
from prog import AnalysisError, fn_nodes, visit
from ai import AV, RV, E0, Budget
from flow import *
from c04 import test
import models
from runner import analyse, SELF

P = "google::protobuf::"
# calls whose result says whether they worked -> (value when they did, values when they did not)
BOOL = ({"absl::Base64Unescape", "absl::SimpleAtoi", "apsi::oprf::ECPoint::scalar_multiply", "ecc_mul", "ecc_mul_fixed"} |
        {P + "MessageLite::" + m for m in ("ParseFromArray", "ParseFromString", "ParseFromIstream", "ParsePartialFromIstream", "ParsePartialFromArray", "ParsePartialFromString", "SerializeToOstream",
                                           "ParseFromZeroCopyStream", "ParseFromCodedStream", "SerializeToZeroCopyStream")} |
        {P + "Message::" + m for m in ("ParseFromIstream", "ParsePartialFromIstream", "SerializeToOstream", "SerializePartialToOstream")} |
        {P + "util::ParseDelimitedFromZeroCopyStream", P + "util::SerializeDelimitedToOstream", P + "util::SerializeDelimitedToZeroCopyStream"})
ONE = re.compile(r"(EC_POINT_\w+|EC_GROUP_get_(curve|order|cofactor)|EC_GROUP_copy|BN_(nnmod|bn2binpad|mod_\w+|add|sub|mul|mod|rand\w*|copy)|RAND_(priv_)?bytes|EVP_(Digest|Encrypt|Decrypt|Cipher)\w+(Init|Update|Final)\w*)$")
NOT1 = {"EC_POINT_new", "EC_POINT_free", "EC_POINT_clear_free", "EC_POINT_cmp", "EC_POINT_is_on_curve", "EC_POINT_is_at_infinity", "EC_POINT_point2oct", "EC_POINT_point2bn", "EC_POINT_dup", "EC_POINT_bn2point"}
ZERO = {"system": (0, (1, -1))}
STATUS = {P + "util::JsonStringToMessage", P + "util::MessageToJsonString", P + "util::BinaryToJsonString", P + "util::JsonToBinaryString"}
ECC = {"HashToCurve", "decode"}          # FourQ: ECCRYPTO_STATUS
STREAM = {"std::basic_ifstream": "in", "std::basic_ofstream": "out", "std::basic_fstream": "io"}
PROBE = ("/proc/", "/sys/")
TRACE = ("StopTracing",)                # the optional trace file is no output of the protocol


def bare(b):
    return re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", b))


def fallible(b):
    b = bare(b)
    if b in BOOL or b.rpartition("::")[2] in ("ParseFromArray",) and "protobuf" in b:
        return ("bool", True, (False,))
    if ONE.match(b) and b not in NOT1:
        return ("int", 1, (0, -1) if b.startswith("RAND") else (0,))
    if b == "BN_bn2binpad":
        return ("int", 32, (-1,))
    if b in ZERO:
        return ("int",) + ZERO[b]
    if b in ECC:
        return ("int", 1, (0, 2, 3))
    if b.startswith("rapidjson::") and b.endswith("::Parse"):
        return ("status", True, (False,))
    if b in STATUS:
        return ("status", True, (False,))
    return None


def arrow(b, t):
    """Calls into arrow that return a Status or a Result."""
    s = t.get("rec") or ""
    return b.startswith("arrow::") and s in ("arrow::Status", "arrow::Result")


class R(Flow):
    K = 24
    inline_max = 4
    async_eager = True

    def __init__(self, root, follow):
        super().__init__()
        self.root, self.follow, self.small = root, follow, set()
        self.stat = {}
        self.seen = set()
        self.names = {}
        self.members = set()
        self.ptr = {}
        self.bad = []

    def no_inline(self, I, fn):
        return fn.f.endswith(TRACE) or fn.u not in self.small and fn.u not in self.follow and not (fn.file.rpartition(".")[0] == self.root.file.rpartition(".")[0] and size(fn) < 60 or size(fn) < 30 or
                                                                      any("stream" in fn.T[q["t"]].get("s", "") for q in fn.d["ps"] if q["t"] >= 0))

    def site(self, I, n, what):
        w = I.where(n)
        self.names[w] = what
        self.seen.add(w)
        return w

    def fork(self, I, st, n, what, good, bads, status=False):
        w = self.site(I, n, what)
        out = []
        for v in (good,) + tuple(bads):
            s = st.copy()
            s.facts = frozenset(x for x in s.facts if x[:2] != ("failed", w))
            if v != good or type(v) is not type(good):
                s.add(("failed", w))
            if status:
                l = (("h", I.fr.id, n.get("l"), "status"),)
                a = I.fresh("status", frozenset(["verdict"]))
                s.store[l] = a
                s.store[l + ("@ok",)] = I.cst(v)
                self.stat[a.t] = v
                out.append((s, RV(a, l)))
            else:
                out.append((s, RV(AV(I.T.c(v), frozenset(["verdict"]), (), ()), None)))
        return out

    def verdict(self, I, st, obj):
        for l in ([obj.loc] if obj.loc is not None else []) + list(obj.av.ref):
            v = st.store.get(l + ("@ok",))
            if v is not None:
                return I.isc(v)[1]
        return self.stat.get(obj.av.t)

    def branch(self, I, st, n, taken):
        rv = getattr(I, "branch_rv", None)
        if taken and rv is not None:
            k = self.key(I, st, rv)
            if k:
                self.drop(st, "dirty", k)

    def load(self, I, st, loc, n):
        if loc[0][0] == "g" and "FLAGS_" in str(loc[0][1]) and ("flag", loc) not in self.names:
            self.names["flag", loc] = I.fresh("flag")
        if ("flag", loc) in self.names:
            st.store[loc] = self.names["flag", loc]
        if loc[:1] == SELF[:1] and len(loc) > 1 and isinstance(loc[-1], str) and "stream" in I.ty(n["t"]).get("s", ""):
            self.ptr[I.rd(st, loc).t] = loc[-1]

    # ---- streams
    def key(self, I, st, a):
        """The stream a value stands for."""
        if a is None:
            return None
        for l in [None] + ([a.loc] if a.loc is not None else []) + list(a.av.ref):
            v = a.av if l is None else st.store.get(l)
            for x in (v.lab if v is not None else ()):
                if isinstance(x, str) and x.startswith("stream "):
                    return x
        for l in ([a.loc] if a.loc is not None else []) + list(a.av.ref):
            if l[:1] == SELF[:1] and len(l) > 1 and isinstance(l[-1], str):
                return "stream member " + l[-1]
            if l[:1] and l[0][0] == "d" and l[0][1:] and l[0][1] in self.ptr:
                return "stream member " + self.ptr[l[0][1]]
        return None

    def has(self, st, *f):
        return f in st.facts

    def closed(self, st, k):
        """Whether the stream could not be opened; using it all the same is the failure that has to lead out."""
        if ("closed", k) in st.facts:
            st.add(("failed", k.rpartition(" ")[2]))
            return True
        return False

    def drop(self, st, *f):
        st.facts = frozenset(x for x in st.facts if x[:len(f)] != f)

    def opened(self, I, st, n, kind, args, obj):
        c, path = I.isc(args[0].av)
        if c and isinstance(path, str) and path.startswith(PROBE):
            return None
        w = self.site(I, n, "opening a file")
        if kind == "io" and len(args) > 1 and I.isc(args[1].av) == (True, 8):
            kind = "in"
        k = "stream %s %s" % (kind, w)
        out = []
        for ok in (True, False):
            s = st.copy()
            for f in ("closed", "dirty", "failed"):
                self.drop(s, f, k)
                self.drop(s, f, w)
            if not ok:
                s.add(("closed", k))
            a = AV(I.T.c(ok), frozenset([k]), (), ())
            if obj is not None and obj.loc is not None:
                s.store[obj.loc] = a
                out.append((s, RV(a, obj.loc)))
            else:
                l = (("h", I.fr.id, n.get("l"), "file"),)
                s.store[l] = a
                out.append((s, RV(a, l)))
        return out

    def examine(self, I, st, n, k, good):
        """The stream's state is looked at; `good`: what the call returns for a stream in order."""
        if self.closed(st, k):
            return [(st, RV(I.cst(not good), None))]
        out = [(st, RV(I.cst(good), None))]
        d = [x for x in st.facts if x[:2] == ("dirty", k)]
        if d:
            s = st.copy()
            for x in d:
                s.add(("failed", x[2]))
            self.drop(s, "dirty", k)
            self.drop(st, "dirty", k)
            s.add(("closed", k))
            out.append((s, RV(I.cst(not good), None)))
        return out

    def special(self, I, st, n, b, cls, m, obj, args):
        bb = bare(b)
        c = bare(cls)
        m = bare(m)
        V = lambda: [(st, RV(I.fresh("v"), None))]
        if n["k"] == "ctor" and c in STREAM:
            if len(args) and not (n.get("pt") and "stream" in I.ty(n["pt"][0]).get("s", "")):
                return self.opened(I, st, n, STREAM[c], args, obj)
            if args and (k := self.key(I, st, args[0])):
                return [(st, args[0])]
            return None
        if c in STREAM and m == "operator=" and args and obj is not None and obj.loc is not None:
            st.store[obj.loc] = args[0].av
            return [(st, RV(args[0].av, obj.loc))]
        if c in STREAM and m == "open":
            return self.opened(I, st, n, STREAM[c], args, obj) if args else V()
        if bb in ("std::getline", "std::operator>>") or c.startswith("std::basic_istream") and m == "operator>>":
            a = args[0] if obj is None else obj
            k = self.key(I, st, a)
            if k:
                if self.closed(st, k):
                    l = (("h", I.fr.id, n.get("l"), "eof"),)
                    st.store[l] = AV(I.T.c(False), frozenset(["no line"]), (), ())
                    return [(st, RV(st.store[l], l))]
                return [(st, RV(I.fresh("line"), None))]
            return None
        if m in ("operator bool", "operator!", "good", "fail", "bad", "is_open", "eof") and (c.startswith("std::basic_") or c in STREAM):
            a = obj if obj is not None else (args[0] if args else None)
            if a is not None and "no line" in self.deep(I, st, [a]):
                return [(st, RV(I.cst(m in ("operator!", "fail")), None))]
            k = self.key(I, st, a)
            if k is None:
                return None
            if m == "eof":
                return None
            if m == "is_open":
                return [(st, RV(I.cst(not self.closed(st, k)), None))]
            return self.examine(I, st, n, k, m in ("operator bool", "good"))
        if c.startswith("std::basic_ios") and m == "exceptions" and args:
            k = self.key(I, st, obj)
            if k:
                if self.closed(st, k):
                    return []
                self.drop(st, "dirty", k)
                st.add(("self-checking", k))
            return V()
        if c.startswith("std::basic_istream") and m in ("read", "gcount"):
            k = self.key(I, st, obj)
            if k and m == "read":
                self.closed(st, k)
                if not self.has(st, "self-checking", k):
                    st.add(("dirty", k, self.site(I, n, "reading a file")))
                for a in args[:1]:
                    for l in a.av.ref:
                        st.store[l] = I.fresh("read")
                return [(st, obj)]
            if k and self.closed(st, k):
                return [(st, RV(I.cst(0), None))]
            if k:
                d = [x for x in st.facts if x[:2] == ("dirty", k)]
                self.drop(st, "dirty", k)
                if d:
                    s2 = st.copy()
                    for x in d:
                        s2.add(("failed", x[2]))
                    # short read: nothing was read
                    return [(st, RV(I.fresh("count"), None)), (s2, RV(I.cst(0), None))]
            return None
        if (m == "operator<<" and (c.startswith("std::basic_ostream") or bb == "std::operator<<") or c.startswith("std::basic_ostream") and m in ("write", "put", "flush")):
            a = obj if obj is not None else args[0]
            k = self.key(I, st, a)
            if k and k.startswith("stream member") and m != "flush":
                return [(st, a)]
            if k:
                if k.startswith("stream member"):
                    self.members.add(k.rpartition(" ")[2])
                self.dirty(I, st, n, k)
                return [(st, a)]
            if a.loc is not None or a.av.ref:
                return [(st, a)]
            return None
        if c in STREAM and m in ("close", "rdbuf"):
            k = self.key(I, st, obj)
            if m == "close" and k and k.startswith("stream member"):
                self.members.add(k.rpartition(" ")[2])
                self.dirty(I, st, n, k)
            return V()
        if bb.endswith("io::GetStdOutFileStream") or bb in ("ctor:std::basic_ofstream", "ctor:std::basic_fstream"):
            if args:
                out = self.opened(I, st, n, "out", args, None)
                return [(s, RV(AV(I.T.fresh("file"), rv.av.lab, (rv.loc,), ()), None)) for s, rv in out] if out else out
        if m in ("WorldSize", "Rank") and not args:
            return V()
        if bb.startswith("std::istreambuf_iterator") or c == "std::istreambuf_iterator":
            if args:
                k = self.key(I, st, args[0])
                if k and self.closed(st, k):
                    return self.val(I, st, ("nothing",), why="it")
            return None
        if n["k"] == "ctor" and c in ("std::vector", "std::basic_string") and len(args) >= 2 and "nothing" in self.deep(I, st, args[:1]):
            l = (("h", I.fr.id, n.get("l"), "empty"),)
            st.store[l] = I.fresh("empty", frozenset(["nothing"]))
            st.store[l + ("@size",)] = I.cst(0)
            return [(st, RV(st.store[l], l))]
        # ---- calls that say whether they worked
        f = fallible(b)
        if f:
            if f[0] == "status" and ("JsonStringTo" in bb or "rapidjson" in bb) and any(x[0] == "closed" and x[1].startswith("stream in ") for x in st.facts):
                return self.fork(I, st, n, bb, True, (False,), True)[1:]
            for a in args:
                k = self.key(I, st, a)
                if k and "Serialize" in m and not k.startswith("stream member"):
                    self.dirty(I, st, n, k)
                    if self.closed(st, k):
                        return self.fork(I, st, n, bb, f[1], f[2])[1:]
                if k and "Parse" in m and self.closed(st, k):
                    return self.fork(I, st, n, bb, f[1], f[2])[1:]
            self.outs(I, st, n, args)
            return self.fork(I, st, n, bb, f[1], f[2], f[0] == "status")
        t = I.ty(n["t"]) if isinstance(n.get("t"), int) and n["t"] >= 0 else {}
        if arrow(bb, t) and m not in ("status", "OK"):
            self.outs(I, st, n, args)
            return self.fork(I, st, n, bb, True, (False,), True)
        if obj is not None and (c.endswith("::Status") or c == "arrow::Result" or c.endswith("StatusOr")):
            v = self.verdict(I, st, obj)
            if v is not None:
                if m in ("ok", "operator bool"):
                    return [(st, RV(AV(I.T.c(v), frozenset(["verdict"]), (), ()), None))]
                if m == "status":
                    return [(st, obj)]
                if m in ("ValueOrDie", "operator*", "operator->", "MoveValueUnsafe", "ValueUnsafe") and m.startswith("ValueOrDie"):
                    return [] if not v else None
        if m in ("HasParseError", "IsObject") and obj is not None and b.startswith("rapidjson::"):
            bad = any(x[0] == "failed" and self.names.get(x[1], "").startswith("rapidjson") for x in st.facts)
            return [(st, RV(I.cst(bad == (m == "HasParseError")), None))]
        # a stream handed to code that is not followed has been written to
        g = I.P.fns.get(n.get("u"))
        if n["k"] == "call" and (g is None or self.no_inline(I, g)) and not c.startswith("std::"):
            for a in args:
                k = self.key(I, st, a)
                if k and not bb.startswith("std::") and not k.startswith("stream member"):
                    self.dirty(I, st, n, k)
        return None

    def outs(self, I, st, n, args):
        for i, a in enumerate(args):
            if a.av.ref and not self.key(I, st, a) and n.get("pt") and i < len(n["pt"]):
                t = I.ty(n["pt"][i])
                if t.get("ptr") and not t.get("cptr"):
                    for l in a.av.ref:
                        st.store[l] = AV(I.T.fresh("out"), E0, st.store[l].ref if l in st.store else (), ())

    def dirty(self, I, st, n, k):
        self.closed(st, k)
        if not self.has(st, "self-checking", k) and not k.startswith("stream in "):
            self.drop(st, "dirty", k)
            st.add(("dirty", k, self.site(I, n, "writing a file")))


SIZE = {}


def size(f):
    if f.u not in SIZE:
        SIZE[f.u] = sum(1 for _ in fn_nodes(f))
    return SIZE[f.u]


def key(v):
    return (type(v).__name__, v)


def run(cx):
    cx.rule("failures lead out")
    cx.rule("files are completed")
    p = cx.prog()
    fns = [f for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)) if f.d.get("body") and f.file.startswith("psi/") and not test(f) and f.f.rpartition("::")[2] not in TRACE and "::~" not in f.f and "Moc" not in (f.cls or "")]
    held = [(c["c"], d["n"]) for c in sorted(p.classes.values(), key=lambda c: c["c"]) for d in c.get("fields", ())
            if c["c"].startswith("psi::") and not re.search("Test|Moc", c["c"]) and stream_type(c["_T"][d["t"]] if isinstance(d.get("t"), int) and d["t"] >= 0 else {})]
    names = {n for c, n in held}
    seen, todo = set(), []
    for f in fns:
        if (f.file, f.line) in seen:
            continue
        for n in fn_nodes(f):
            if n.get("k") == "mem" and n.get("n") in names and (f.cls or "", n["n"]) in held:
                seen.add((f.file, f.line))
                todo.append(f)
                break
            if n.get("k") in ("call", "ctor", "opcall"):
                b = bare(models.strip(n.get("f") or ""))
                t = f.T[n["t"]] if isinstance(n.get("t"), int) and n["t"] >= 0 else {}
                if fallible(b) or n["k"] == "call" and arrow(b, t) or n["k"] == "ctor" and n.get("c") in STREAM and n.get("a") or b.startswith("std::basic_") and b.rpartition("::")[2] in ("open", "read", "flush", "close"):
                    seen.add((f.file, f.line))
                    todo.append(f)
                    break
    small = {f.u for f in todo if size(f) < 250 and any(re.search("Parse|JsonStringTo", x.get("f") or "") for x in fn_nodes(f))}
    follow, done, k = set(), set(), 0
    users = {}
    for f in fns:
        for n in fn_nodes(f):
            if n.get("u"):
                users.setdefault(n["u"], []).append(f)
    members = set()
    while todo:
        f = todo.pop(0)
        if (f.file, f.line) in done:
            continue
        done.add((f.file, f.line))
        r, I, outs = judge(cx, p, f, follow, small)
        if r is None:
            continue
        k += len(r.seen)
        members |= r.members
        good = {key(I.isc(rv.av)[1]) for st, rv in outs if rv is not None and I.isc(rv.av)[0] and not any(x[0] == "failed" for x in st.facts)}
        gives = any(rv is not None and not I.isc(rv.av)[0] and not any(x[0] == "failed" for x in st.facts) for st, rv in outs) and not f.f.endswith("main")
        reports = False
        for w in sorted(r.seen):
            viol = False
            for st, rv in outs:
                if ("failed", w) not in st.facts:
                    continue
                c, v = I.isc(rv.av) if rv is not None and rv.av is not None else (False, None)
                if c and (key(v) not in good or v in (None, 0) and gives):
                    reports = reports or key(v) in (key(False), key(0)) and not gives
                elif rv is not None and r.verdict(I, st, rv) in (0, False):
                    reports = True
                else:
                    viol = True
            wf = w.rpartition(":")[0]
            cx.check(not viol, "failures lead out", "%s: %s" % (f.f, r.names[w]), "when this fails (%s) the function carries on and returns as if nothing had happened" % r.names[w], w)
        for st, rv in outs:
            for x in st.facts:
                if x[0] == "dirty":
                    cx.fail("files are completed", "%s: %s" % (f.f, r.names.get(x[2])), "what became of %s is never looked at: a full disk or a truncated file passes for success" % r.names.get(x[2]), x[2])
        cx.ok("files are completed", f.f)
        if reports:
            follow.add(f.u)
            for g in users.get(f.u, []):
                done.discard((g.file, g.line))
                todo.append(g)
    # ---- streams kept in members
    for c, n in held:
        cx.check(n in members, "files are completed", "%s::%s" % (c, n), "nothing but a destructor completes the file written through %s: a full disk passes for success" % n, c)
    cx.floor("streams kept in members", len(held), 2)
    cx.count("functions interpreted", len(done))
    cx.floor("fallible calls reached", k, 60)


def stream_type(t):
    s = t.get("s", "") + " " + (t.get("rec") or "")
    return "std::" in s and re.search(r"\b(basic_)?(of|f)stream\b", s)


def judge(cx, p, f, follow, small=()):
    r = R(f, follow)
    r.small = {x for x in small if x != f.u}
    try:
        I, outs = analyse(p, r, f, None, None, budget=200000)
    except Budget:
        r = R(f, set())
        r.inline_max = 0
        I, outs = analyse(p, r, f, None, None, budget=400000)
    return r, I, outs

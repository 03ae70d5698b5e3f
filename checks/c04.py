"""C04 keys and seeds come from a cryptographic generator (or are received, configured or read from the key file)."""
import re
from prog import AnalysisError, fn_nodes, visit
from ai import AV, RV, E0, Budget
from flow import *
from c05 import fn
import models
from runner import analyse, SELF

RNG, FROMPEER, FILE = "csprng", "peer", "file"
ENGINE = ("mersenne_twister_engine", "linear_congruential_engine", "subtract_with_carry_engine", "shuffle_order_engine", "discard_block_engine")
SEEDED = ("Prg", "YaclReplayUrbg", "YaclStdUrbg")
DRAW = re.compile(r"yacl::crypto::(Secure)?(Fast)?Rand(U32|U64|U128|Seed|Bytes)$")
FILL = {"RAND_bytes": True, "RAND_priv_bytes": True, "randombytes_buf": False, "yacl::crypto::FillRand": False, "yacl::crypto::SecureFillRand": False}
PARAM = re.compile(r"seed|private_?key|secret_?key", re.I)
NOTPARAM = re.compile(r"path|file|compressed|inited|buf$", re.I)
KEYFIELD = re.compile(r"private_key")
WK = "weak"
SHORT = "short"
FIXED = "fixed"
GIVEN = "given"
TESTDATA = ("psi::pir::RawDatabase::Random", "psi::spiral::GenRandomDbAndGetItem")
WEAK = ("rand", "random", "std::rand", "time", "std::time", "clock", "std::clock", "getpid", "absl::Now", "absl::ToUnixNanos", "absl::GetCurrentTimeNanos")
NOISE = ("Noise", "GenTernaryMatrix")


def test(f):
    return f.file.endswith(("_test.cc", "_benchmark.cc", "test_utils.cc", "test_utils.h", "test.h")) or "/test/" in f.file or "testing" in f.file


def scalar(t):
    return t and (t.get("int") or re.search(r"int128|uint8_t|unsigned char|vector<unsigned|std::array|Span|ByteContainerView|uint64_t|size_t|string", t.get("s", "")))


SIZE = {}


class Prov(Flow):
    K = 16
    sizelab = False
    root = None
    alone = False
    inline_max = 5

    def __init__(self):
        super().__init__()
        self.sinks = []         # (what, labels, constant, where)
        self.fills = []         # (where, ok, message)
        self.noise = []

    def recv_labels(self, I, st, n, obj, args):
        return frozenset([FROMPEER])

    def no_inline(self, I, fn):
        """Only helpers next to the analysed function and small functions elsewhere are followed."""
        if not self.alone and self.root is not None and fn.file.rpartition(".")[0] == self.root.file.rpartition(".")[0] and not fn.file.startswith("psi/algorithm/rr22/okvs"):
            return False
        if self.alone or "psi/algorithm/spiral/" in fn.file and not fn.file.endswith("spiral_client.cc"):
            return True
        k = SIZE.get(fn.u)
        if k is None:
            k = SIZE[fn.u] = sum(1 for _ in fn_nodes(fn))
        return k > 80

    def sink(self, I, st, n, what, args):
        if not I.dry:
            lab = self.deep(I, st, args)
            const = not args
            if args and not lab:
                a = args[0]
                vals = [a.av] + ([I.rd(st, l) for l in a.av.ref] if a.av.ref else [])
                const = any(I.isc(v)[0] for v in vals)
                if not const and any(sized(I.T, v.t) for v in vals):
                    lab = frozenset([WK])
            self.sinks.append((what, lab, const, I.where(n)))

    def extent(self, I, st, a):
        """Bytes of the object the pointer argument points to the start of, when they are known."""
        for l in a.av.ref:
            base = l[:-1] if l[-1:] == ("[]",) else l
            s = st.store.get(base + ("@size",))
            if s is not None:
                return s
            name = base[-1] if base else None
            if isinstance(name, str):
                for c in I.P.classes.values():
                    for f in c["fields"]:
                        if f["n"] == name:
                            t = c["_T"][f["t"]]
                            if t.get("rec") == "std::array" and c["_T"][t["ta"][0]].get("int") == 8:
                                return I.cst(int(t["ta"][1]))
        return None

    def put(self, I, st, a, lab):
        for l in a.av.ref:
            st.store[l] = I.fresh("random", lab)
            if l[-1:] == ("[]",):
                pass
        if a.loc is not None and not a.av.ref:
            st.store[a.loc] = I.fresh("random", lab)
            st.store[a.loc + ("[]",)] = I.fresh("random", lab)

    def special(self, I, st, n, b, cls, m, obj, args):
        c = cls.rpartition("::")[2].partition("<")[0]
        if DRAW.match(b):
            lab = frozenset([RNG, "%s@%s" % (RNG, n.get("l"))])
            if b.endswith("RandBytes") and args and I.isc(args[0].av)[0] and I.isc(args[0].av)[1] < 32:
                lab |= {SHORT}
            st.facts = st.facts | {("drawn", n.get("l"))}
            l = (("h", I.fr.id, n.get("l"), "random"),)
            st.store[l] = I.fresh("random", lab)
            st.store[l + ("[]",)] = I.fresh("random", lab)
            return [(st, RV(st.store[l], l))]
        if b in WEAK or c in ("random_device",) and m in ("operator()", "entropy") or c in ("system_clock", "steady_clock", "high_resolution_clock") and m == "now":
            return self.val(I, st, (WK,), {"[]": (WK,)}, "weak")
        if b.endswith("MakeUint128") and len(args) == 2:
            lab = self.deep(I, st, args)
            if not lab:
                lab = {FIXED} if all(I.isc(a.av)[0] for a in args) else {WK} if all(I.isc(a.av)[0] or sized(I.T, a.av.t) for a in args) else set()
            return self.val(I, st, frozenset(lab), why="word")
        if b in FILL and args:
            lab = frozenset([RNG, "%s@%s" % (RNG, n.get("l"))])
            if len(args) > 1:
                e = self.extent(I, st, args[0])
                c1, v1 = I.isc(args[1].av)
                c2, v2 = I.isc(e) if e is not None else (False, None)
                if not I.dry and c1 and c2:
                    self.fills.append((I.where(n), v1 >= v2, "%s of the %s bytes of the key are random" % (v1, v2)))
            s2 = st.copy()
            self.put(I, s2, args[0], lab)
            s2.facts = s2.facts | {("drawn", n.get("l"))}
            if not FILL[b]:
                return [(s2, RV(I.fresh("void"), None))]
            st.facts = st.facts | {("not drawn", n.get("l"))}
            return [(s2, RV(I.cst(1), None)), (st, RV(I.cst(0), None))]
        if n["k"] == "ctor" and cls in ("std::vector", "std::array", "std::basic_string") and len(args) in (2, 3) and all(I.isc(a.av)[0] for a in args[:2]):
            return self.val(I, st, (FIXED,), {"[]": (FIXED,), "@size": ()}, "fixed")
        if c in ENGINE and (n["k"] == "ctor" or m.partition("<")[0] == c):
            if not args and obj is not None and obj.loc is not None and obj.loc[0][0] == "v":
                st.facts = st.facts | {("unseeded", obj.loc, I.where(n))}      # may be seeded later
                st.store[obj.loc] = I.fresh("engine", frozenset([WK]))
                return [(st, RV(st.store[obj.loc], obj.loc))]
            cp = args and "Engine" in (I.ty(n["pt"][0]).get("s", "") if n.get("pt") else "")
            self.sink(I, st, n, "std::" + ("mt19937" if c.startswith("mers") else c), args)
            lab = frozenset([WK])
            if obj is not None and obj.loc is not None:
                st.store[obj.loc] = I.fresh("engine", lab)
                return [(st, RV(st.store[obj.loc], obj.loc))]
            return self.val(I, st, lab, why="engine")
        if c in ENGINE and m == "operator()" or c.endswith("_distribution") and m == "operator()" and args and WK in self.deep(I, st, args):
            return self.val(I, st, (WK,), why="engine output")
        if c in SEEDED and (n["k"] == "ctor" or m.partition("<")[0] == c) and n["k"] == "ctor":
            if c == "YaclStdUrbg" and not args:
                lab = frozenset([RNG])
            else:
                self.sink(I, st, n, c, args[:1])
                lab = self.deep(I, st, args[:1])
            if obj is not None and obj.loc is not None:
                st.store[obj.loc] = I.fresh("engine", lab)
                return [(st, RV(st.store[obj.loc], obj.loc))]
            return self.val(I, st, lab, why="engine")
        if b.startswith("ctor:") and b[5:].rpartition("::")[2].partition("<")[0] in SEEDED + ENGINE:
            self.sink(I, st, n, b[5:], args[:1])
            return None
        if (c in ENGINE and m == "seed" or c in SEEDED and m == "SetSeed") and obj is not None:
            self.sink(I, st, n, m, args)
            st.facts = frozenset(x for x in st.facts if x[0] != "unseeded" or x[1] != obj.loc)
            if obj.loc is not None:
                st.store[obj.loc] = I.fresh("engine", self.deep(I, st, args))
            return [(st, RV(I.fresh("void"), None))]
        if c in SEEDED and m in ("Fill",) and obj is not None and args:
            lab = (self.deep(I, st, [obj]) & {RNG, FROMPEER, GIVEN, FILE, WK}) | {"%s@%s" % (RNG, n.get("l"))}
            self.put(I, st, args[0], frozenset(lab))
            return [(st, RV(I.fresh("void"), None))]
        if b.endswith("AES_set_encrypt_key") and args:
            self.sink(I, st, n, "AES key", args[:1])
            return None
        if m in NOISE and "spiral" in b:
            self.noise.append((m, frozenset(x for x in self.deep(I, st, args[-1:]) if "@" in x), I.where(n)))
            return self.val(I, st, ("noise",), why=m)
        if m == "RandomPrg" and "spiral" in b:
            self.noise.append((m, frozenset(x for x in self.deep(I, st, args[-1:]) if "@" in x), I.where(n)))
            return self.val(I, st, ("public",), why=m)
        if m in ("ReadEcSecretKeyFile",) or b.startswith("std::basic_ifstream") and m == "read":
            return self.val(I, st, (FILE,), {"[]": (FILE,)}, "file")
        g = I.P.fns.get(n.get("u"))
        if b.startswith("ctor:psi::"):
            gs = [x for x in I.P.byname.get(b[5:] + "::" + b.rpartition("::")[2], []) if len(x.d["ps"]) == len(args) and any(PARAM.search(q["n"] or "") for q in x.d["ps"])]
            g = gs[0] if len(gs) == 1 else None
        if g is not None and not test(g):
            for i, q in enumerate(g.d["ps"]):
                if q["n"] and PARAM.search(q["n"]) and not NOTPARAM.search(q["n"]) and i < len(args) and scalar(g.T[q["t"]] if q["t"] >= 0 else None) and not out_param(g, q):
                    self.sink(I, st, n, "%s of %s" % (q["n"], b), [args[i]])
        return None


def sized(T, t):
    """Made of the sizes of containers and constants only."""
    k = T.tab[t]
    if k[0] == "size":
        return True
    if k[0] == "narrow":
        return sized(T, k[2])
    if k[0] == "op":
        return any(sized(T, x) for x in k[2:4]) and all(sized(T, x) or T.const(x)[0] for x in k[2:4])
    return False


def out_param(g, q):
    t = g.T[q["t"]] if q["t"] >= 0 else {}
    return (t.get("ptr") and not t.get("cptr")) or (t.get("ref") and not t.get("const") and not t.get("rref") and "const" not in t.get("s", ""))


class Judge:
    def __init__(self, cx, p):
        self.cx, self.p = cx, p
        self.runs = self.skipped = 0

    def run(self, f):
        try:
            return self.go(f, False)
        except (Budget, AnalysisError):
            return self.go(f, True)         # too much to follow: this function's own statements only

    def go(self, f, alone):
        r = Prov()
        r.root = f
        r.alone = alone

        def setup(I, st):
            for i, q in enumerate(f.d["ps"]):
                lab = frozenset([GIVEN])
                st.store[(("p", q["n"] or str(i)),)] = AV(I.T.mk("r", ("p", q["n"] or str(i)), ()), lab, self.ref(f, q, i), ())
                st.store[(("p*", q["n"] or str(i)),)] = AV(I.T.mk("r", ("p*", q["n"] or str(i)), ()), lab, (), ())
        self.runs += 1
        I, outs = analyse(self.p, r, f, None, setup, budget=150000)
        return r, I, outs

    def ref(self, f, q, i):
        t = f.T[q["t"]] if q["t"] >= 0 else {}
        if t.get("ptr") or t.get("s", "").startswith(("std::shared_ptr", "std::unique_ptr", "const std::shared_ptr", "const std::unique_ptr")):
            return ((("p*", q["n"] or str(i)),),)
        return ()


def run(cx):
    cx.rule("seed is random")
    cx.rule("key is random")
    cx.rule("noise is secret")
    p = cx.prog()
    J = Judge(cx, p)
    # every function that seeds a generator, sets up a cipher key or passes a seed on
    sites = {}
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.d.get("body") or test(f) or (f.file, f.line) in sites or "Moc" in (f.cls or "") or f.f in TESTDATA:
            continue
        for n in fn_nodes(f):
            if n.get("k") not in ("call", "ctor"):
                continue
            b = models.strip(n.get("f") or "")
            c = b.rpartition("::")[0].rpartition("::")[2]
            g = p.fns.get(n.get("u"))
            if (n["k"] == "ctor" and c in ENGINE + SEEDED or b.endswith("AES_set_encrypt_key") or b in ("std::make_shared", "std::make_unique") and n.get("ta") and re.search("|".join(SEEDED + ENGINE), f.T[n["ta"][0]].get("s", "")) or
                    b.rpartition("::")[2] in ("seed", "SetSeed") and c in ENGINE + SEEDED or
                    b in ("std::make_shared", "std::make_unique") and keyed(p, f, n) or
                    g is not None and any(q["n"] and PARAM.search(q["n"]) and not NOTPARAM.search(q["n"]) for q in g.d["ps"])):
                sites[(f.file, f.line)] = f
                break
    k = 0
    for f in sites.values():
        r, I, outs = J.run(f)
        for st, _ in outs:
            for x in st.facts:
                if x[0] == "unseeded":
                    r.sinks.append(("a generator", frozenset(), True, x[2]))
        for what, lab, const, w in r.sinks:
            k += 1
            cx.check(SHORT not in lab or not re.match(r"\w*(private|secret)_?key", what), "key is random", "%s: %s" % (f.f, what), "only part of %s is drawn at random" % what, w)
            cx.check(not const, "seed is random", "%s: %s" % (f.f, what), "%s gets a constant: everybody can predict what is derived from it" % what, w)
            cx.check(RNG in lab or not FIXED in lab, "seed is random", "%s: %s" % (f.f, what), "%s gets fixed bytes: everybody can predict what is derived from it" % what, w)
            cx.check(RNG in lab or not WK in lab, "seed is random", "%s: %s" % (f.f, what), "%s gets a value from a source that is not a cryptographic generator" % what, w)
        for w, ok, msg in r.fills:
            cx.check(ok, "key is random", f.f + ": whole key", msg, w)
    cx.floor("seeds and keys in use", k, 30)
    # private keys of freshly made objects
    k = 0
    holders = {c: [x["n"] for x in d["fields"] if KEYFIELD.search(x["n"]) and scalar(d["_T"][x["t"]])] for c, d in p.classes.items()}
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.d.get("ctor") or not f.cls or test(f) or f.d.get("implicit") or not f.file.startswith("psi/"):
            continue
        keys = [x for c in supers(p, f.cls) for x in holders.get(c, ())]
        if not keys or not f.d.get("body") or any("const %s &" % f.cls.rpartition("::")[2] in f.T[q["t"]].get("s", "") for q in f.d["ps"] if q["t"] >= 0):
            continue
        r, I, outs = J.run(f)
        for x in sorted(set(keys)):
            for st, rv in outs:
                lab = frozenset(y for y in I.deep(st, RV(I.rd(st, SELF + (x,)), SELF + (x,))) if isinstance(y, str))
                k += 1
                if not lab and inherits(p, f):
                    continue            # drawn by the base class's constructor, judged there
                cx.check(lab & {RNG, FROMPEER, FILE, GIVEN} and (RNG in lab or WK not in lab), "key is random", "%s::%s" % (f.cls, x),
                         "an object is made whose %s is not drawn from a cryptographic generator" % x, "%s:%d" % (f.file, f.line))
        for w, ok, msg in r.fills:
            cx.check(ok, "key is random", f.f + ": whole key", msg, w)
    cx.floor("private keys of freshly made objects", k, 5)
    seeds(cx, p)
    spiral(cx, p, J)
    cx.count("functions interpreted", J.runs)


def keyed(p, f, n):
    """make_shared / make_unique of a class one of whose constructors takes a seed or private key."""
    c = f.T[n["ta"][0]].get("rec", "") if n.get("ta") and n["ta"][0] >= 0 else ""
    return any(PARAM.search(q["n"] or "") and not NOTPARAM.search(q["n"]) for x in p.byname.get(c + "::" + c.rpartition("::")[2], []) for q in x.d["ps"] if c.startswith("psi::"))


def seeds(cx, p):
    """A seed kept in a member is not a constant for good."""
    names = {(c, x["n"]) for c, d in p.classes.items() if c.startswith("psi::") and "Moc" not in c for x in d["fields"] if re.search("seed", x["n"], re.I) and not NOTPARAM.search(x["n"]) and scalar(d["_T"][x["t"]])}
    by = {}
    for f in p.fns.values():
        if not f.file.startswith("psi/") or test(f) or not f.cls or f.d.get("implicit"):
            continue
        for i in f.d.get("inits") or []:
            if i.get("m") and (f.cls, i["m"]) in names and i.get("e"):
                by.setdefault((f.cls, i["m"]), []).append((i["e"], f, True))
        for n in fn_nodes(f):
            x = n.get("x") if n.get("k") in ("assign", "bin") else (n.get("a") or [None])[0] if n.get("k") == "opcall" and n.get("op") == "=" else None
            if x and x.get("k") == "mem":
                y = n.get("y") if n["k"] != "opcall" else n["a"][1]
                for c in [c for c, m in names if m == x["n"]]:
                    by.setdefault((c, x["n"]), []).append((y, f, False))
    for k in sorted(names):
        es = by.get(k, [])
        fixed = [f for e, f, init in es if init and not any(x.get("k") in ("var", "call", "mem", "opcall", "this") and x.get("cv") is None for x in visit(e))]
        cx.check(not fixed or any(not i for _, _, i in es), "seed is random", "%s::%s" % k, "the seed is always a constant: everybody can predict what is derived from it",
                 "%s:%d" % (es[0][1].file, es[0][1].line) if es else "?")


def inherits(p, f):
    """The base class's default constructor, which has statements of its own, runs first."""
    todo = [i["e"]["c"] for i in f.d.get("inits") or [] if "base" in i and (i.get("e") or {}).get("k") == "ctor" and not i["e"]["a"]]
    while todo:
        c = todo.pop()
        if any(g.cls == c and g.d.get("ctor") and g.d.get("body") and not g.d["ps"] and (fn_nodes(g) and g.d["body"].get("s")) for g in p.fns.values()):
            return True
        k = p.classes.get(c)
        todo += [k["_T"][b].get("rec", "") for b in k["bases"]] if k else []
    return False


def supers(p, c):
    out, todo = [], [c]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.append(x)
        k = p.classes.get(x)
        if k:
            todo += [k["_T"][b].get("rec", "") for b in k["bases"]]
    return out


def spiral(cx, p, J):
    for name in ("psi::spiral::SpiralClient::GenQueryInternal", "psi::spiral::SpiralClient::GenPublicKeys"):
        f = fn(p, name)
        r, I, outs = J.run(f)
        w = "%s:%d" % (f.file, f.line)
        noise = frozenset(x for m, l, _ in r.noise if m in NOISE for x in l)
        pub = frozenset(x for m, l, _ in r.noise if m not in NOISE for x in l)
        for st, rv in outs:
            l = rv.loc
            if l is not None:
                pub |= frozenset(x for x in I.rd(st, l + ("seed_",)).lab if isinstance(x, str) and "@" in x)
        cx.check(noise and pub, "noise is secret", name.rpartition("::")[2], "no noise or no public randomness is drawn", w)
        cx.check(not noise & pub, "noise is secret", name.rpartition("::")[2], "secret noise is drawn from the generator of the public randomness (seeded at line %s)" % ", ".join(sorted(x.split("@")[1] for x in noise & pub)), w)

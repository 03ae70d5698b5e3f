"""C33 the protocol is skipped as 'same keys on both sides' only when all parties' keys really are the same."""
from prog import AnalysisError, fn_nodes, visit
import loops
from ai import AV, RV, E0
from flow import *
from c05 import fn
import models
from runner import analyse, SELF

EQ = ("operator==", "operator!=")


class Shortcut(Flow):
    """Init / Run up to the decision to skip."""
    K = 10
    inline_max = 12
    async_eager = True

    def __init__(self, rank=0):
        Flow.__init__(self)
        self.rank = rank
        self.seen, self.part = {}, []

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/utils/join", "psi/utils/table", "psi/utils/arrow", "psi/checkpoint/", "psi/utils/index_store", "psi/utils/resource", "psi/utils/progress", "psi/utils/trace", "psi/utils/bucket", "psi/utils/csv"))

    def fork(self, st, I, yes, no=()):
        out = []
        for v in (True, False):
            s2 = st.copy()
            for f in (yes if v else no):
                s2.add(f)
            out.append((s2, RV(I.cst(v), None)))
        return out

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if n["k"] == "ctor" and "ByteContainerView" in (n.get("c") or "") and len(args) == 2 and "digest" in self.deep(I, st, args[:1]):
            k = I.T.tab[args[1].av.t]
            if k[0] == "op" or k[0] == "c" and isinstance(k[2], int) and k[2] < 32:
                self.part.append(I.where(n)) if not I.dry else None
        if m in ("CheckSelfConfig", "CheckPeerConfig") and "Party" in cls:
            return V()
        if m == "KeysHash" or m == "hash_digest":
            return V(("digest",), why="digest")
        if m == "DupKeyCnt":
            return V(("dup",), why="dup")
        if b == "psi::AllGatherFlag":
            lab = self.deep(I, st, args[1:2])
            t = args[1].av.t
            k = I.T.tab[t]
            none = "dup" in lab and (k[0] == "==" and any(I.T.const(x) == (True, 0) for x in k[1:3]) or k[0] == "!" and I.T.tab[k[1]][0] == "<" and I.T.const(I.T.tab[k[1]][1]) == (True, 0)
                                     or k[0] == "<" and I.T.const(k[2]) == (True, 1))
            return V(("no duplicates",) if none else ("flag",), why="flags")
        if b in ("std::all_of", "std::any_of", "std::none_of", "std::find") and "no duplicates" in self.deep(I, st, args[:1]):
            if b == "std::all_of":
                return self.fork(st, I, [("unique",)], [("dup",)])
            return self.fork(st, I, [("dup",)], [("dup",)])
        if b in GATHER:
            lab = self.deep(I, st, args[1:2])
            if "digest" in lab:
                self.seen["gather"] = 1
                return V(("all digests",), why="digests")
        if m == "HashListEqualTest":
            if "all digests" in self.deep(I, st, args[:1]):
                self.seen["compare"] = 1
                return self.fork(st, I, [("same",)])
        return None

    def branch(self, I, st, n, taken):
        rv = I.branch_rv
        if "no duplicates" in rv.av.lab:
            t, s = rv.av.t, taken
            while I.T.tab[t][0] == "!":
                t, s = I.T.tab[t][1], not s
            if I.T.tab[t][0] in ("==",):
                c = [I.T.const(x) for x in I.T.tab[t][1:3] if I.T.const(x)[0]]
                if c and not c[0][1]:
                    s = not s
            st.add(("unique",) if s else ("dup",))


class Pair(Flow):
    """HashListEqualTest."""
    K = 8

    def special(self, I, st, n, b, cls, m, obj, args):
        if m in EQ and len(args) + (obj is not None) == 2:
            x, y = ([obj] if obj is not None else []) + args
            if "h" in self.deep(I, st, [x]) and "h" in self.deep(I, st, [y]):
                out = []
                for v in (True, False):
                    s2 = st.copy()
                    s2.add(("match",) if v else ("mismatch",))
                    out.append((s2, RV(I.cst(v != (m == "operator!=")), None)))
                return out
        clo = [a for a in args if a.av.clo]
        if clo and b in ("std::all_of", "std::any_of") and "h" in self.deep(I, st, args[:1]):
            out = []
            for s2, rv in I.call_closures(n, st, clo[0], [RV(I.rd(st, r), r) for r in args[0].av.ref[:1]]):
                out.append((s2, rv))
            return out
        if b in ("std::equal", "std::adjacent_find", "std::find_if", "std::find_if_not", "std::none_of", "std::count", "std::count_if", "std::mismatch") and "h" in self.deep(I, st, args[:1]):
            st.add(("match",))
        return None


def element(x, lst):
    """('first',) / ('const', k) / ('i', var id, offset) / ('el', var id) of an expression that names one digest of the list, None if not understood."""
    x = loops.unwrap(x)
    k = x.get("k")
    if k in ("opcall", "call") and (x.get("op") == "[]" or (x.get("f") or "").endswith("::at")):
        i = loops.unwrap((x.get("a") or [None])[-1])
        if loops.const(i) is not None:
            return ("const", loops.const(i))
        if i.get("k") == "var":
            return ("i", i["id"], 0)
        if i.get("k") == "bin" and i.get("op") in ("+", "-") and loops.unwrap(i["x"]).get("k") == "var" and loops.const(i["y"]) is not None:
            return ("i", loops.unwrap(i["x"])["id"], loops.const(i["y"]) * (1 if i["op"] == "+" else -1))
        return None
    if k == "call" and (x.get("f") or "").endswith("::front"):
        return ("const", 0)
    if k == "var":
        return ("el", x["id"])
    return None


def coverage(f):
    """Comparisons of f that are understood and do not reach every element of the list -> [(line, what)]"""
    bad = []
    for lp in fn_nodes(f):
        c = loops.counting(lp)
        if c is None:
            continue
        for x in visit(lp["b"]):
            if x.get("k") != "opcall" or x.get("op") not in ("==", "!=") or len(x["a"]) != 2:
                continue
            a, b = element(x["a"][0], None), element(x["a"][1], None)
            if a is None or b is None:
                continue
            if a == b:
                bad.append((x["l"], "a digest is compared with itself"))
                continue
            if not any(y[0] == "i" and y[1] == c["id"] for y in (a, b)) or loops.size_of(c["bound"]) is None or loops.const(c["start"]) is None or c["step"] != 1 or c["op"] not in ("<", "!="):
                if any(y[0] == "i" and y[1] == c["id"] for y in (a, b)) and loops.const(c["start"]) is not None:
                    bb = loops.unwrap(c["bound"])
                    sub = bb.get("k") == "bin" and bb.get("op") == "-" and loops.size_of(bb["x"]) is not None and (loops.const(bb["y"]) or 0)
                    if sub and c["op"] in ("<", "!=") and max(y[2] for y in (a, b) if y[0] == "i") - c["extra"] < sub:
                        bad.append((x["l"], "the last digests are not compared"))
                continue
            off = [y[2] for y in (a, b) if y[0] == "i" and y[1] == c["id"]]
            lo = loops.const(c["start"])
            consts = [y[1] for y in (a, b) if y[0] == "const"]
            first = lo + min(off)
            if first > (1 if len(off) == 1 and 0 in consts else 0):
                bad.append((x["l"], "the first digests are not compared"))
            if max(off) < c["extra"]:
                bad.append((x["l"], "the last digests are not compared"))
    return bad


class Hash(Flow):
    """Every key goes into the hash together with its length."""
    K = 10
    inline_max = 12
    async_eager = True
    sizelab = False

    def __init__(self):
        Flow.__init__(self)
        self.bad, self.n, self.skips, self.keyloops, self.digests, self.before, self.dups, self.dupvar = [], 0, [], {}, 0, {}, [], set()

    def write(self, I, st, loc, rv, n):
        if self.dupvar and not I.dry and I.loops and loc and loc[0][0] == "v" and loc[0][2] in self.dupvar and len(loc) == 1:
            T = I.T
            old = self.before.get(I.loops[-1], {})
            for t, v in dict(st.conds).items():
                if t in old and old[t] == v:
                    continue
                k = T.tab[t]
                x, y = k[1:3] if k[0] in ("<", "==") else (None, None)
                if k[0] == "<" and (v and T.const(x)[0] and not T.const(y)[0] and T.const(x)[1] >= 1 or not v and T.const(y)[0] and not T.const(x)[0] and T.const(y)[1] > 1) or \
                        k[0] == "==" and v and any(T.const(z)[0] and T.const(z)[1] and T.const(z)[1] is not True for z in (x, y)):
                    self.dups.append((I.where(n), I.chain()))

    def iter_begin(self, I, st, n):
        st.facts = st.facts - {("done", id(n))}
        self.before[id(n)] = dict(st.conds)

    def iter_end(self, I, st, n):
        if ("done", id(n)) not in st.facts and not I.dry:
            self.skips.append((id(n), I.where(n), I.chain()))

    def loop_break(self, I, st, n):
        if ("done", id(n)) not in st.facts and not I.dry:
            self.skips.append((id(n), I.where(n), I.chain()))

    def no_inline(self, I, fn):
        return fn.file.startswith(("psi/utils/arrow", "psi/utils/pb_helper", "psi/utils/random", "psi/utils/io", "psi/io", "psi/utils/key")) or fn.f.startswith(("psi::KeyInfo::KeyInfo", "psi::Table::Table"))

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), parts=None, why="v": self.val(I, st, lab, parts, why)
        if m == "KeysJoin":
            return V((RAW,), why="key")
        if m in ("substr", "front", "back", "subspan", "first") and obj is not None and RAW in self.deep(I, st, [obj]) and cls.endswith(("::string", "string_view")):
            return V(("part of a key",), why="part")
        if m in ("CumulativeHash", "GetHash") and not I.dry:
            self.digests += 1
        if m in ("size", "length") and obj is not None and not args:
            lab = self.deep(I, st, [obj])
            if RAW in lab and cls.endswith(("::string", "string_view")):
                return V(("length",), why="length")
            return None
        if b in ("std::to_string", "psi::utils::SerializeSize", "fmt::format", "absl::StrCat") and args:
            return V(self.deep(I, st, args), why=m)
        if m == "Update" and "Hash" in cls and obj is not None:
            lab = self.deep(I, st, args)
            if RAW in lab:
                self.n += not I.dry
                for q in I.loops:
                    st.add(("done", q))
                if I.loops:
                    self.keyloops[I.loops[-1]] = 1
                if "length" not in lab:
                    if ("length",) not in st.facts and not I.dry:
                        self.bad.append((I.where(n), I.chain()))
                    st.facts = st.facts - {("length",)}
            elif "length" in lab:
                st.add(("length",))
            elif "part of a key" not in lab and not I.isc(args[0].av)[0]:
                for q in I.loops:       # a key of which nothing is known
                    st.add(("done", q))
            l = obj.loc if obj.loc is not None else obj.av.ref[0]
            return [(st, RV(I.rd(st, l), l))]
        return None


class Flag(Flow):
    """AllGatherFlag, every party sending the same value."""
    K = 10

    def __init__(self):
        Flow.__init__(self)
        self.bad, self.decoded, self.sent = [], [], 0

    def special(self, I, st, n, b, cls, m, obj, args):
        if b in GATHER:
            v = None
            for l in [r for a in args[1:2] for r in a.av.ref]:
                x = I.rd(st, l)
                if I.isc(x)[0]:
                    v = x
            self.sent += not I.dry
            self.v = v
            return self.val(I, st, ("recv",), why="flags")
        if m == "data" and "Buffer" in cls and obj is not None and getattr(self, "v", None) is not None:
            l = (("sent", 0),)
            st.store[l + ("[]",)] = AV(self.v.t, frozenset(["recv"]), (), ())
            return [(st, RV(AV(I.T.mk("&", l), frozenset(["recv"]), (l + ("[]",),), ()), None))]
        return None

    def branch(self, I, st, n, taken):
        rv = getattr(I, "branch_rv", None)
        if rv is not None and "recv" in rv.av.lab:
            st.add(("by recv",))

    def iter_begin(self, I, st, n):
        st.facts = st.facts - {("by recv",)}

    def write(self, I, st, loc, rv, n):
        if I.dry or not loc or loc[-1] != "[]" or loc[0][0] == "sent" or not I.loops:
            return
        if "recv" not in rv.av.lab and ("by recv",) not in st.facts:
            self.bad.append(I.where(n))
        c = I.isc(rv.av)
        if c[0]:
            self.decoded.append({bool(c[1])})


class Copy(Flow):
    def __init__(self):
        Flow.__init__(self)
        self.bad = []

    def special(self, I, st, n, b, cls, m, obj, args):
        if n["k"] == "ctor" and (n.get("c") or "").startswith("std::vector") and len(args) >= 2 and args[0].av.t and not self.whole(I, args) and not I.dry:
            self.bad.append(I.where(n))
        if m in ("assign", "insert") and len(args) >= 2 and not self.whole(I, args[-2:]) and not I.dry:
            self.bad.append(I.where(n))
        return None


def run(cx):
    p = cx.prog()
    cx.rule("AbstractPsiParty::Init sets digest_equal_, and the legacy BucketPsi::Run skips RunPsi, only on paths where the gathered key digests were found equal (and, in Init, every party reported that it has no duplicate keys)")
    cx.rule("HashListEqualTest returns true only on paths where no two compared digests differ")
    cx.rule("every key that enters a key digest is preceded in the hash by its length, so that different key sequences never hash the same bytes")
    cx.trust("SHA-256 is collision free", "AllGather returns every party's contribution")
    for rank in (0, 1):
        R = Shortcut(rank)

        def setup(I, st):
            st.store[SELF + ("digest_equal_",)] = I.cst(0)
        f = fn(p, "psi::AbstractPsiParty::Init")
        I, outs = analyse(p, R, f, "psi::AbstractPsiParty", setup)
        skip = 0
        for st, _ in outs:
            v = I.rd(st, SELF + ("digest_equal_",))
            if I.known(st, v.t) is False:
                continue
            skip += 1
            w = "%s:%d" % (f.file, f.line)
            cx.check(("same",) in st.facts, "digests equal", "AbstractPsiParty::Init", "the protocol is skipped without all parties' key digests having been found equal", w)
            cx.check(("unique",) in st.facts and ("dup",) not in st.facts, "keys unique", "AbstractPsiParty::Init", "the protocol is skipped although a party may have duplicate keys, which the digest does not cover", w)
        for w in R.part:
            cx.fail("whole digests compared", "AbstractPsiParty::Init", "only a part of the digest is exchanged", w)
        if "gather" in R.seen:
            cx.check(skip, "shortcut reachable", "AbstractPsiParty::Init", "equal digests are never used", "%s:%d" % (f.file, f.line))
    cx.floor("digest comparisons", len(R.seen), 1)
    fs = p.byname.get("psi::HashListEqualTest", [])
    for f in fs:
        R = Pair()

        def hl(I, st):
            l = (("arg", "list"),)
            st.store[l + ("[]",)] = I.fresh("h", frozenset(["h"]))
            return RV(I.rd(st, l), l)
        I, outs = analyse(p, R, f, None, None, {f.d["ps"][0]["n"]: hl})
        yes = [(st, rv) for st, rv in outs if I.known(st, rv.av.t) is not False]
        cx.check(yes and all(("mismatch",) not in st.facts and ("match",) in st.facts for st, _ in yes), "equality test", "HashListEqualTest",
                 "digests are reported equal on a path where two of them differ or none were compared", "%s:%d" % (f.file, f.line))
        for line, what in coverage(f):
            cx.fail("equality test", "HashListEqualTest", what, "%s:%d" % (f.file, line))
    n = 0
    for nm in ("psi::KeyInfo::Make", "psi::CsvChecker::CsvChecker"):
        for f in p.byname.get(nm, ()):
            R = Hash()
            def src(I, st):
                pass
            for x in fn_nodes(f):
                if x["k"] == "call" and (x.get("f") or "").endswith("::set_duplicate_key_cnt"):
                    R.dupvar |= {y["id"] for a in x["a"] for y in visit(a) if y.get("k") == "var" and y.get("id") is not None}
            I, outs = analyse(p, R, f)
            n += bool(R.n) or bool(R.digests)
            site = "%s(%s)" % (nm[5:], f.T[f.d["ps"][0]["t"]].get("s", "?").replace("const std::shared_ptr<", "").replace("std::shared_ptr<", "").strip("> &"))
            for w, ch in R.bad:
                cx.fail("keys delimited", site, "keys enter the digest without their length: different key sets with the same concatenation get the same digest", w, [ch])
            for i, w, ch in R.skips:
                if i in R.keyloops:
                    cx.fail("every key is hashed", site, "a path through the loop over the keys does not add the key to the digest", w, [ch])
            for w, ch in R.dups:
                cx.fail("keys unique", site, "a repeated key is counted as a duplicate only when it is repeated more than once", w, [ch])
            if R.digests:
                cx.check(R.n, "every key is hashed", site, "the digest is computed without the whole keys", "%s:%d" % (f.file, f.line))
            if R.n:
                cx.ok("keys delimited", site)
    cx.floor("places that compute a key digest", n, 3)
    # ---- what the parties tell each other about duplicates
    f = fn(p, "psi::AllGatherFlag")
    self_flag = f.d["ps"][1]["n"]
    for v in (True, False):
        R = Flag()
        I, outs = analyse(p, R, f, None, None, {self_flag: lambda I, st: RV(AV(I.cst(v).t, frozenset(["self"]), (), ()), None)})
        w = "%s:%d" % (f.file, f.line)
        for x in R.bad:
            cx.fail("keys unique", "AllGatherFlag", "the flag reported for a party does not come from what that party sent", x)
        cx.check(R.sent and all(x == {v} for x in R.decoded), "keys unique", "AllGatherFlag", "a party's flag is not read the way it is sent", w)
    for f in p.byname.get("psi::KeyInfo::KeysHash", ()):
        R = Copy()
        I, outs = analyse(p, R, f, "psi::KeyInfo")
        for w in R.bad:
            cx.fail("whole digests compared", "KeyInfo::KeysHash", "only a part of the key digest is handed out", w)
        cx.ok("whole digests compared", "KeyInfo::KeysHash") if not R.bad else None
    f = fn(p, "psi::AbstractPsiParty::Run")

    class Go(Flow):
        K = 10

        def no_inline(self, I, fn):
            return True

        def special(self, I, st, n, b, cls, m, obj, args):
            if m == "Init":
                st.store[SELF + ("digest_equal_",)] = I.fresh("eq")
            if m in ("PreProcess", "Online", "PostProcess"):
                st.add((m,))
            return self.val(I, st, ())
    I, outs = analyse(p, Go(), f, "psi::AbstractPsiParty")
    for st, _ in outs:
        for m in ("PreProcess", "Online", "PostProcess"):
            if (m,) not in st.facts:
                cx.check(I.known(st, I.rd(st, SELF + ("digest_equal_",)).t) is True, "only equal inputs skip the protocol", "AbstractPsiParty::Run " + m, "the protocol step is skipped although the inputs were not found equal", "%s:%d" % (f.file, f.line))
            else:
                cx.ok("only equal inputs skip the protocol", "AbstractPsiParty::Run " + m) if ("only equal inputs skip the protocol", "AbstractPsiParty::Run " + m) not in cx.obl else None
    # ---- legacy
    f = fn(p, "psi::BucketPsi::Run")

    class L(Shortcut):
        skip = run = 0

        def special(self, I, st, n, b, cls, m, obj, args):
            if m == "RunPsi":
                self.run += not I.dry
                st.add(("ran",))
                return self.val(I, st, ())
            if m in ("CheckInput", "ProduceOutput", "Init", "InitEnv"):
                return self.val(I, st, ())
            return Shortcut.special(self, I, st, n, b, cls, m, obj, args)
    R = L()
    I, outs = analyse(p, R, f)
    for st, _ in outs:
        if ("ran",) not in st.facts:
            R.skip += 1
            cx.check(("same",) in st.facts, "digests equal", "BucketPsi::Run", "the protocol is skipped without all parties' key digests having been found equal", "%s:%d" % (f.file, f.line))
    cx.floor("legacy runs of the protocol", R.run, 1)

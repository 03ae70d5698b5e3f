"""C13 lock discipline."""
from prog import AnalysisError
from ai import Rule
import models
from runner import analyse, SELF

MUTEX = ("std::mutex", "std::shared_mutex", "std::recursive_mutex", "std::timed_mutex", "std::shared_timed_mutex", "absl::Mutex")
SYNC = ("std::atomic", "std::condition_variable", "std::once_flag", "absl::CondVar", "absl::Notification") + MUTEX
READM = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "size", "empty", "at", "operator[]", "front", "back", "data", "find", "get", "operator*", "operator->", "c_str",
         "count", "valid", "lock", "second", "first"}
# Classes shared between threads by design, and why each exempt member needs no lock.
SHARED = {
    "psi::Progress": {},
    "psi::RecoveryManager": {"ecdh_dual_masked_cnt_from_peer_": "assigned in MarkOnlineStart, before the online-phase tasks are launched; read-only afterwards",
                             "parsed_bucket_count_from_peer_": "as above"},
    "psi::OperatorFactory": {},
    "psi::ecdh::EcdhOprfPsiClient": {},
    "psi::SimpleShuffledBatchProvider": {},
    "psi::ArrowCsvBatchProvider": {"buffer_future_": "touched by the single consumer only; the prefetch task never uses it"},
}


def is_sync(t):
    s = (t.get("rec") or t.get("s") or "").replace("const ", "").replace("mutable ", "")
    return s.startswith(SYNC) or s.startswith(("std::__atomic", "atomic"))


class R(Rule):
    def __init__(self, fields, mutexes):
        self.fields, self.mutexes = fields, mutexes
        self.acc = {}      # (field, kind) -> list of (fn, where, held kinds)
        self.rec = []

    def hit(self, I, st, loc, kind, n):
        if I.dry or loc[:1] != SELF or len(loc) < 2 or loc[1] not in self.fields:
            return
        held = {}
        for m, l in st.locks:
            if m[:1] == SELF and len(m) == 2 and m[1] in self.mutexes:
                k = I.lockkind.get((m, l), "excl")
                if held.get(m[1]) != "excl":
                    held[m[1]] = k
        self.acc.setdefault((loc[1], kind), []).append((I.fr.fn.f if I.fr.fn else "?", I.where(n), tuple(sorted(held.items())), I.chain()))

    def load(self, I, st, loc, n):
        self.hit(I, st, loc, "read", n)

    def write(self, I, st, loc, rv, n):
        self.hit(I, st, loc, "write", n)

    def lock(self, I, st, m, n):
        if not I.dry and any(x[0] == m for x in st.locks) and m[:1] == SELF:
            self.rec.append((m[1], I.fr.fn.f if I.fr.fn else "?", I.where(n), I.chain()))

    def call(self, I, st, n, f, obj, args):
        if obj is None or obj.loc is None or obj.loc[:1] != SELF or len(obj.loc) < 2:
            return None
        m = models.strip(f).split("::")[-1]
        if n.get("pb"):
            if m.startswith(("mutable_", "set_", "clear", "add_", "Clear", "Merge", "Parse", "CopyFrom", "Swap", "release_")):
                self.hit(I, st, obj.loc, "write", n)
        elif not n.get("constm") and m not in READM and not m.startswith("operator") and f not in I.P.byname:
            self.hit(I, st, obj.loc, "write", n)
        elif m in ("operator=", "operator+=", "operator++", "operator--", "operator-="):
            self.hit(I, st, obj.loc, "write", n)
        return None


def run(cx):
    p = cx.prog()
    cx.rule("guarded-by: in every class that owns a mutex and is shared between threads, each member that is not immutable, atomic or itself a synchronisation object "
            "and is written outside construction is accessed only while the mutex is held, on every path from every public method (writes: exclusively); a held mutex is never locked again")
    cx.trust("objects are not shared before their constructor returns", "the lock classes of the standard library behave as documented")
    ncls = nacc = 0
    for cn, ex in SHARED.items():
        cd = p.classes.get(cn)
        if cd is None:
            raise AnalysisError("class %s vanished" % cn)
        T = cd["_T"]
        mut = {f["n"] for f in cd["fields"] if (T[f["t"]].get("rec") or T[f["t"]].get("s", "")).replace("mutable ", "") in MUTEX}
        where = "%s:%s" % (cd["file"], cd["line"])
        fields = {f["n"] for f in cd["fields"] if f["n"] not in mut and not is_sync(T[f["t"]]) and not T[f["t"]].get("const") and not T[f["t"]].get("s", "").startswith("const ")}
        methods = [fn for fn in p.fns.values() if fn.cls == cn and not fn.d.get("ctor") and not fn.d.get("dtor") and "::~" not in fn.f]
        called = set()
        from prog import fn_nodes
        for fn in [fn for fn in p.fns.values() if fn.cls == cn]:
            for n in fn_nodes(fn):
                if n["k"] == "call":
                    called.add(n["u"])
        acc, rec, esc = {}, [], {}
        
        roots = [fn for fn in methods if not (fn.d.get("acc") == "priv" and fn.u in called)]
        for fn in roots:
            r = R(fields, mut)
            I, outs = analyse(p, r, fn, cn)
            rt = fn.T[fn.d["rt"]] if fn.d.get("rt", -1) >= 0 else {}
            if rt.get("ref") or rt.get("ptr"):
                for st, rv in outs:
                    for l in ([rv.loc] if rv is not None and rt.get("ref") and rv.loc is not None else list(rv.av.ref) if rv is not None else []):
                        if l[:1] == SELF and len(l) > 1 and l[1] in fields and not I.T is None:
                            esc.setdefault(l[1], (fn.f, "%s:%d" % (fn.file, fn.line)))
            for k, v in r.acc.items():
                acc.setdefault(k, []).extend(v)
            rec += r.rec
        ncls += 1
        cx.count("methods_analysed", len(roots))
        for fld in sorted(fields):
            w = acc.get((fld, "write"), [])
            if not w:
                continue      # immutable after construction
            site = "%s::%s" % (cn, fld)
            if fld in ex:
                ws = {x[0].split("::")[-1] for x in w}
                cx.check(ws <= {"MarkOnlineStart", "ReadAsync", "GetBuffer"}, "single-writer", site, "member exempt from locking is written in %s" % sorted(ws), w[0][1])
                continue
            allacc = [(x, "write") for x in w] + [(x, "read") for x in acc.get((fld, "read"), [])]
            for (f, wh, held, ch), kind in allacc:
                nacc += 1
                h = dict(held)
                good = ("excl" in h.values()) if kind == "write" else bool(h)
                s2 = "%s %s in %s" % (site, kind, f)
                if good:
                    cx.ok("guarded-by", s2)
                else:
                    cx.fail("guarded-by", s2, "%s of %s without holding the mutex of %s%s" % (kind, fld, cn, " exclusively" if h else ""), wh, [ch])
            if fld in esc:
                cx.fail("no-escape", site, "%s hands out a reference to %s, which outlives the lock" % (esc[fld][0], fld), esc[fld][1])
            # one common mutex for all accesses
            com = None
            for (f, wh, held, ch), kind in allacc:
                ks = {k for k, _ in held}
                com = ks if com is None else com & ks
            if all(h for (_, _, h, _), _ in allacc):
                cx.check(bool(com), "common-mutex", site, "accesses are guarded by different mutexes", allacc[0][0][1])
        for m, f, wh, ch in rec:
            cx.fail("no-relock", "%s::%s in %s" % (cn, m, f), "mutex %s is locked while already held" % m, wh, [ch])
        cx.ok("no-relock", cn) if not rec else None
    cx.floor("classes", ncls, 6)
    cx.floor("guarded accesses", nacc, 40)

"""C24 memory handed across the C interface."""
from prog import AnalysisError, fn_nodes
from ai import Rule, AV, RV, E0
import models
from runner import analyse

D = "psi/wrapper/apsi/api/"
BUF = ("CString", "CStringArray", "QueryResult")
HANDLES = ("Receiver", "Sender", "QueryCtx")


class R(Rule):
    K = 24
    sizelab = False
    for_atleast = rfor_atleast = True

    def __init__(self):
        self.uaf, self.bad, self.casts = [], [], []
        self.elem = []

    def no_inline(self, I, fn):
        # the implementation classes behind the handles are decided elsewhere
        return not fn.file.startswith(D) or fn.file.endswith(("api/receiver.cc", "api/sender.cc", "api/receiver.h", "api/sender.h"))

    def site(self, I):
        return I.fr.fn.f if I.fr.fn else "?"

    def call(self, I, st, n, f, obj, args):
        b = models.strip(f)
        T = I.T
        if b in ("malloc", "std::malloc", "calloc", "std::calloc"):
            sz = args[0].av.t if len(args) == 1 else T.mk("op", "*", args[0].av.t, args[1].av.t)
            l = (("h", I.fr.id, n["l"], "malloc"),)
            t = T.mk("&", l)
            st.add(("alloc", t, sz))
            nul = st.copy()
            nul.facts = st.facts - {("alloc", t, sz)}
            return [(st, RV(AV(t, E0, (l,), ()), None)), (nul, RV(I.cst(0), None))]
        if b in ("free", "std::free") and args:
            v = args[0]
            c, k = I.isc(v.av)
            if c and k == 0:
                return [(st, RV(I.fresh("void"), None))]
            if ("freed", v.av.t) in st.facts and not I.dry and not self.weakterm(I, v):
                self.bad.append((self.site(I), I.where(n), "a pointer is released twice"))
            walked = v.loc is not None and v.loc[0][0] == "d" and I.T.tab[v.loc[0][1]][0] != "r"
            if not walked:
                st.add(("freed", v.av.t), ("freedloc", v.loc))
            k = flat(I.T, v.av.t)
            if k is not None:
                if "[]" in k[1] and ("freed", I.T.mk("r", k[0], k[1][:k[1].index("[]")])) in st.facts and not I.dry:
                    self.uaf.append((self.site(I), I.where(n)))
                if I.T.tab[v.av.t][0] == ".":
                    st.add(("freed", I.T.mk("r", k[0], k[1])))
                if k[1][-3:] == ("data", "[]", "data"):
                    st.add(("freedloc", (k[0],) + k[1]))
            if v.loc is not None and ("[]" in v.loc or v.loc[0][0] == "d"):
                self.elem.append((self.site(I), I.where(n), v.loc, dict(st.conds)))
            return [(st, RV(I.fresh("void"), None))]
        k = b.split("::")[-1]
        if b in ("std::unique_ptr::release", "std::unique_ptr::get") and obj is not None:
            lab = "REL" if k == "release" else "BORROWED"
            return [(st, RV(AV(obj.av.t, obj.av.lab | {lab}, obj.av.ref, ()), None))]
        if b.startswith("std::unique_ptr") and n["k"] == "ctor" and len(args) == 1:
            st.add(("owned", args[0].av.t))
        if b == "std::string::basic_string" or (n["k"] == "ctor" and (n.get("c") or "").startswith("std::basic_string")):
            t = I.ty((n.get("pt") or [-1])[0]) if n.get("pt") else {}
            if t.get("ptr") and args:
                self.strs(I, st, n, args)
        if b in ("std::vector::emplace_back", "std::vector::push_back") and obj is not None and args and I.ty((n.get("pt") or [-1])[0] if n.get("pt") else None).get("s", "").find("char *") >= 0:
            self.strs(I, st, n, args)
        if b in ("strlen", "std::strlen", "strcpy", "strncpy", "strdup") and not I.dry:
            self.bad.append((self.site(I), I.where(n), "%s stops at the first zero byte of a binary string" % b))
        return None

    def strs(self, I, st, n, args):
        """std::string built from a C buffer must take pointer and length of the same buffer."""
        lens = [a for a in args[1:] if I.ty(None) is not None]
        src = args[0].loc
        if src is None or src[-1] != "data":
            return
        k = flat(I.T, args[0].av.t)
        if k is not None and k[1][-1:] == ("data",) and k[0][0] in ("p", "p*") and len(args) >= 2 and flat(I.T, args[1].av.t) != (k[0], k[1][:-1] + ("size",)) and I.isc(args[1].av) != (True, 0):
            if not I.dry:
                self.bad.append((self.site(I), I.where(n), "a string is built from a buffer with a length that is not the buffer's own"))
            return
        good = len(args) >= 2 and (args[1].loc == src[:-1] + ("size",) or args[1].av.t == I.rd(st, src[:-1] + ("size",)).t)
        ia, ib = [[x for x in walk(a) if x["k"] == "idx" or x["k"] == "opcall" and x.get("op") == "[]"] for a in (n["a"] + [{"k": "?"}] * 2)[:2]]
        if good and ia and ib:
            good = [strip(x.get("i") or x["a"][1]) for x in ia] == [strip(x.get("i") or x["a"][1]) for x in ib]
        if not good and not I.dry:
            self.bad.append((self.site(I), I.where(n), "a string is built from a buffer without its own length"))

    def weakterm(self, I, v):
        return v.loc is not None and "[]" in v.loc

    def gone(self, I, st, loc):
        if not loc or len(loc) < 2 and loc[0][0] != "d":
            return False
        if loc[0][0] == "d":
            return ("freed", loc[0][1]) in st.facts
        if loc[0][0] == "p*" and "[]" in loc[1:] and ("freed", I.T.mk("r", loc[0], tuple(loc[1:loc.index("[]")]))) in st.facts:
            return True
        if loc[0][0] == "p*":
            return ("freed", I.T.mk("r", ("p", loc[0][1]), ())) in st.facts
        return False

    def load(self, I, st, loc, n):
        if self.gone(I, st, loc) and not I.dry:
            self.uaf.append((self.site(I), I.where(n)))

    def write(self, I, st, loc, rv, n):
        if self.gone(I, st, loc) and not I.dry:
            self.uaf.append((self.site(I), I.where(n)))

    def delete(self, I, st, n, v):
        if I.ty(n["e"].get("t")).get("rec") in HANDLES and not I.dry:
            self.bad.append((self.site(I), I.where(n), "an opaque handle is deleted without its implementation type"))
        st.add(("owned", v.av.t))


def flat(T, t):
    """(root, path) of a term that names a place, also through a copied structure."""
    k = T.tab[t]
    if k[0] == "r":
        return (k[1], k[2])
    if k[0] == ".":
        b = flat(T, k[1])
        return (b[0], b[1] + k[2]) if b is not None else None
    return None


def walk(n):
    yield n
    for v in n.values():
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, dict):
                yield from walk(x)


def strip(n):
    """A syntax tree without positions and implicit conversions."""
    if isinstance(n, list):
        return [strip(x) for x in n]
    if not isinstance(n, dict):
        return n
    if n.get("k") == "cast" or n.get("k") == "copy":
        return strip(n["e"])
    return {k: strip(v) for k, v in n.items() if k not in ("l", "c", "t", "imp")}


def run(cx):
    p = cx.prog(scope=(D,))
    cx.rule("C buffers: every Make function stores size == number of elements and allocates at least that many (plus terminator where written); every Free function releases each element and the array, in bounds, "
            "before clearing size and pointer, never touches freed memory and frees nothing twice; strings are rebuilt with pointer and length. "
            "Handles: every cast of an opaque handle uses one implementation type; Make functions release ownership, Free functions take it and clear the caller's pointer")
    cx.trust("malloc/free/unique_ptr behave as documented")
    ext = [f for f in p.fns.values() if f.file.startswith(D) and "_test" not in f.file and "test_label" not in f.file]
    cfns = [f for f in ext if f.d.get("externc")]
    nfree = nmake = ncast = 0
    for f in ext:
        if f.d.get("externc") or f.file.endswith(("_c_wrapper.cc", "wrapper_util.cc")):
            for n in fn_nodes(f):
                if n["k"] == "decl" and n.get("static") and not f.T[n["t"]].get("const"):
                    cx.fail("buffer-ownership", f.f, "%s lives on after the call and is shared by all callers" % n.get("n"), "%s:%d" % (f.file, n.get("l", f.line)))
            loops(cx, f)
    # handles -------------------------------------------------------------------------------------------------------
    pair = {}
    for f in ext:
        if not f.file.endswith("_c_wrapper.cc"):
            continue
        for n in fn_nodes(f):
            if n["k"] == "cast" and n.get("ck") == "reinterpret" or n["k"] == "cast" and not n.get("imp"):
                to = f.T[n["t"]] if n.get("t", -1) >= 0 else {}
                fr = None
                e = n["e"]
                while e["k"] in ("copy",) or (e["k"] == "cast" and e.get("imp")):
                    e = e["e"]
                if e.get("t", -1) is not None and e.get("t", -1) >= 0:
                    fr = f.T[e["t"]]
                if not to.get("ptr") or not fr:
                    continue
                a, b = to.get("rec") or to.get("s"), fr.get("rec") or fr.get("s")
                for h, i in ((a, b), (b, a)):
                    if h in HANDLES:
                        ncast += 1
                        pair.setdefault(h, {}).setdefault(full(f, to if h == b else fr), []).append("%s (%s:%d)" % (f.f, f.file, n.get("l", 0)))
    for h, m in sorted(pair.items()):
        if len(m) == 1:
            cx.ok("handle-type", h)
        else:
            least = min(m, key=lambda k: len(m[k]))
            cx.fail("handle-type", h, "handle %s is cast to %s but elsewhere to %s" % (h, least, [k for k in m if k != least]), m[least][0].split("(")[-1].rstrip(")"))
    for f in cfns:
        rt = f.T[f.d["rt"]] if f.d.get("rt", -1) >= 0 else {}
        wh = "%s:%d" % (f.file, f.line)
        r = R()
        I, outs = analyse(p, r, f, None)
        for s, w, m in r.bad:
            cx.fail("buffer", s, m, w)
        for s, w in r.uaf:
            cx.fail("use-after-free", s, "memory is read after it was released", w)
        cx.ok("use-after-free", f.f) if not r.uaf else None
        if rt.get("ptr") and rt.get("rec") in HANDLES:
            nmake += 1
            for st, rv in outs:
                good = "BORROWED" not in rv.av.lab and ("REL" in rv.av.lab or rv.av.ref and all(x[0][0] == "h" for x in rv.av.ref) or I.isc(rv.av) == (True, 0))
                cx.check(good, "handle-ownership", f.f, "the returned handle is still owned by a smart pointer that destroys it", wh)
        if rt.get("rec") in ("CString", "CStringArray") and not rt.get("ptr"):
            for st, rv in outs:
                d = I.rd(st, rv.loc + ("data",)) if rv.loc is not None else rv.av
                own = any(x[0] == "alloc" and x[1] == d.t for x in st.facts)
                cx.check(own, "buffer-ownership", f.f, "the caller is given a buffer that was not allocated for it (it releases it)", wh)
        ps = f.d["ps"]
        nm = f.f
        if ps and "Free" in nm:
            t = f.T[ps[0]["t"]]
            q = ps[0]["n"]
            P = ("p*", q)
            if t.get("rec") in BUF:
                nfree += 1
                freecheck(cx, p, f, I, outs, r, t["rec"], q, wh)
            else:
                nfree += 1
                dbl = t.get("s", "").count("*") == 2
                loc = (P,)
                init = I.T.mk("r", loc[0], ()) if dbl else I.T.mk("r", ("p", q), ())
                for st, rv in outs:
                    root = st.store.get((("p", q),))
                    nul = any(v is True and I.T.tab[c][0] == "==" and I.T.c(0) in I.T.tab[c][1:] for c, v in st.conds.items()) or any(v is False and c in (init, I.T.mk("r", ("p", q), ())) for c, v in st.conds.items())
                    own = ("owned", init) in st.facts
                    cx.check(own or nul, "handle-release", f.f, "a path does not destroy the object behind the handle", wh)
                    if dbl and not nul:
                        a = st.store.get(loc)
                        cx.check(a is not None and I.isc(a) == (True, 0), "handle-cleared", f.f, "the caller's handle still points to the destroyed object", wh)
    # buffers -------------------------------------------------------------------------------------------------------
    nbuf = 0
    for f in ext:
        rt = f.T[f.d["rt"]] if f.d.get("rt", -1) >= 0 else {}
        wh = "%s:%d" % (f.file, f.line)
        if f.file.endswith("wrapper_util.cc") and rt.get("rec") in ("CString", "CStringArray"):
            nbuf += 1
            makecheck(cx, p, f, rt["rec"], wh)
        elif f.file.endswith("wrapper_util.cc"):
            nbuf += 1
            r = R()
            I, outs = analyse(p, r, f, None)
            for s, w, m in r.bad:
                cx.fail("buffer", s, m, w)
            cx.ok("buffer", f.f) if not r.bad else None
        elif rt.get("rec") == "QueryResult" and rt.get("ptr") and not f.d.get("externc"):
            nbuf += 1
            qrcheck(cx, p, f, wh)
    cx.floor("handle casts", ncast, 10)
    cx.floor("free functions", nfree, 4)
    cx.floor("make functions returning handles", nmake, 3)
    cx.floor("buffer conversion functions", nbuf, 5)


PUT = ("emplace_back", "push_back", "MakeCString", "MakeString", "append", "assign", "insert")


def puts(f, n):
    """The statement certainly stores an element."""
    for x in walk(n):
        if x["k"] == "call" and x.get("f", "").split("::")[-1].split("<")[0] in PUT:
            return True
        if x["k"] == "assign" or x["k"] == "opcall" and x.get("op") == "=":
            y = x["x"] if x["k"] == "assign" else x["a"][0]
            while y["k"] in ("cast", "copy", "mem"):
                y = y.get("e") or y["b"]
            if y["k"] == "idx" or y["k"] == "un" and y.get("op") == "*" or y["k"] == "opcall" and y.get("op") in ("[]", "*"):
                return True
    return False


def body_paths(f, n, done):
    """(an element was stored, how the iteration ends) for each path through a loop body."""
    if n is None:
        return {(done, "n")}
    k = n["k"]
    if k == "block":
        cur, out = {(done, "n")}, set()
        for s in n["s"]:
            nxt = set()
            for d, e in cur:
                if e == "n":
                    nxt |= body_paths(f, s, d)
            out |= {x for x in nxt if x[1] != "n"}
            cur = {x for x in nxt if x[1] == "n"}
        return out | cur
    if k == "if":
        d = done or puts(f, n["c"])
        return body_paths(f, n.get("x"), d) | body_paths(f, n.get("y"), d)
    if k in ("break", "continue", "ret", "throw"):
        return {(done or k == "ret" and puts(f, n), k)}
    return {(done or puts(f, n), "n")}


def loops(cx, f):
    """A loop that stores elements stores one in every iteration and does not end early."""
    if not f.file.endswith("wrapper_util.cc"):
        return
    for n in fn_nodes(f):
        if n["k"] not in ("for", "rfor", "while", "do") or not puts(f, n["b"]):
            continue
        ps = body_paths(f, n["b"], False)
        bad = [e for d, e in ps if e in ("break", "ret") and n.get("c") is not None or e in ("n", "continue") and not d or n["k"] == "rfor" and e in ("break", "ret")]
        cx.check(not bad, "every-element", f.f, "an iteration over the elements can leave one out", "%s:%d" % (f.file, n.get("l", f.line)))


def full(f, t):
    r = t.get("rec") or t.get("s")
    return r + str(t.get("ta") and [f.T[x].get("rec") or f.T[x].get("s") for x in t["ta"]] or "")


def freecheck(cx, p, f, I, outs, r, rec, q, wh):
    T = I.T
    base = (("p*", q),)
    nonnull = 0
    for st, rv in outs:
        if any(v is False and T.tab[c][:2] == ("r", ("p", q)) for c, v in st.conds.items()) or any(v and T.tab[c][0] == "==" and T.c(0) in T.tab[c][1:] and any(x == T.mk("r", ("p", q), ()) for x in T.tab[c][1:]) for c, v in st.conds.items()):
            continue
        parg = [k for k, v in st.conds.items() if v and T.tab[k][0] == "==" and T.c(0) in T.tab[k][1:] and any(T.tab[x][:2] == ("r", ("p", q)) for x in T.tab[k][1:])]
        if parg or not any(fx[0] in ("freed",) for fx in st.facts) and rec == "QueryResult":
            if ("freed",) not in st.facts and rec == "QueryResult" and not any(fx[0] == "freed" for fx in st.facts):
                continue
        nonnull += 1
        bufs = [()] if rec != "QueryResult" else [("keys",), ("values",)]
        for b in bufs:
            ptr = T.mk("r", base[0], b + ("data",))
            skipped = any((T.tab[c][0] == "==" and ptr in T.tab[c][1:] and T.c(0) in T.tab[c][1:] and v) or (c == ptr and v is False) for c, v in st.conds.items())
            if b == ("values",) and any(v is False and c == T.mk("r", base[0], ("labeled",)) for c, v in st.conds.items()):
                skipped = True  # not labelled: values is empty (result-labeled)
            if skipped:
                continue
            site = "%s: %s" % (f.f, ".".join(b) or "buffer")
            cx.check(("freed", ptr) in st.facts, "free-buffer", site, "a path does not release the buffer itself", wh)
            if rec != "CString":
                el = base + b + ("data", "[]", "data")
                cx.check(("freedloc", el) in st.facts or ("freedloc", (("d", ptr), "data")) in st.facts, "free-elements", site, "a path does not release the elements of the array", wh)
            for fld in ("data", "size"):
                if rec == "QueryResult":
                    continue
                a = I.rd(st, base + b + (fld,))
                cx.check(I.isc(a) == (True, 0), "free-cleared", site + "." + fld, "%s is not cleared after release" % fld, wh)
        if rec == "QueryResult":
            own = [fx for fx in st.facts if fx[0] == "freed" and T.tab[fx[1]] == ("r", ("p", q), ()) or fx[0] == "freed" and T.tab[fx[1]][0] in ("r",) and T.tab[fx[1]][1] == ("p", q)]
            cx.check(bool(own), "free-struct", f.f, "a path does not release the result structure", wh)
    if not nonnull:
        cx.fail("free-buffer", f.f, "no path releases the buffer", wh)
    for s, w, loc, conds in r.elem:
        # in bounds: the index (or pointer) is compared with the array's size as it was, and the walk covers the first element
        ok = any(inbound(I, c, v) for c, v in conds.items())
        cx.check(ok, "free-bounds", "%s in %s" % (f.f, s), "the loop over the elements is not bounded by the array's size", w)


def inbound(I, c, v):
    T = I.T
    q = T.tab[c]
    if not (q[0] == "<" and v or q[0] == "==" and not v):
        return False

    def issize(t):
        k = flat(T, t)
        return k is not None and k[1][-1:] == ("size",)

    def start(t):
        k = T.tab[t]
        return T.const(t) == (True, 0) or k[0] == "s" and isinstance(k[2], tuple) and k[2][:1] == ("loop",)

    def data(t):
        k = flat(T, t)
        return k is not None and k[1][-1:] == ("data",) or T.tab[t][0] == "s"
    for x, y in ((q[1], q[2]), (q[2], q[1])):
        if issize(y) and start(x):
            return True
        k = T.tab[y]
        if k[0] == "op" and k[1] == "+" and any(issize(a) for a in k[2:4]) and data(x):
            return True
        if q[0] == "<":
            break
    # counting down: 0 < n
    return q[0] == "<" and T.const(q[1]) == (True, 0) and (issize(q[2]) or start(q[2]))


def makecheck(cx, p, f, rec, wh):
    r = R()
    lens = []

    class R2(R):
        def call(self, I, st, n, ff, obj, args):
            b = models.strip(ff)
            if b in ("memcpy", "std::memcpy", "std::copy", "std::copy_n", "memmove") and len(args) == 3:
                st.add(("copied", args[2].av.t if b not in ("std::copy",) else -1))
            return R.call(self, I, st, n, ff, obj, args)

        def write(self, I, st, loc, rv, n):
            if loc and loc[0][0] == "h" and len(loc) >= 1 and loc[0][3] == "malloc":
                k, v = I.isc(rv.av)
                st.add(("wrote", "zero" if k and v == 0 else "elem"))
                if not (k and v == 0):
                    for c, v in st.conds.items():
                        q = I.T.tab[c]
                        if v and q[0] == "<":
                            self.elem.append((q[1], q[2], I.where(n)))
    r = R2()
    I, outs = analyse(p, r, f, None)
    T = I.T
    q = f.d["ps"][0]["n"]
    n = 0
    for s, w, m in r.bad:
        cx.fail("buffer", s, m, w)
    for st, rv in outs:
        data, size = I.rd(st, rv.loc + ("data",)), I.rd(st, rv.loc + ("size",))
        al = [x for x in st.facts if x[0] == "alloc" and x[1] == data.t]
        n += 1
        if not al:
            cx.fail("make-alloc", f.f, "a path returns a buffer that was not allocated with malloc", wh)
            continue
        cx.ok("make-alloc", f.f)
        inlen = {T.mk("size", I.rd(st, (("p", q),)).t)}
        cx.check(size.t in inlen, "make-size", f.f, "the size of the buffer is %s, not the number of elements of the input" % T.show(size.t), wh)
        extra = slack(T, al[0][2], size.t)
        term = ("wrote", "zero") in st.facts
        cx.check(extra is not None and extra >= (1 if term and rec == "CString" else 0), "make-capacity", f.f, "the allocation (%s) can be smaller than what is written" % T.show(al[0][2]), wh)
        cop = [x for x in st.facts if x[0] == "copied"]
        cx.check(("wrote", "elem") in st.facts or any(x[1] in (size.t, -1) or (slack(T, x[1], size.t) in (0, 1)) for x in cop), "make-content", f.f, "the input is not copied into the buffer", wh)
        if rec == "CString":
            cx.check(term or any(slack(T, x[1], size.t) == 1 for x in cop), "make-terminator", f.f, "the buffer is not terminated", wh)
    for i, b, w in r.elem:
        if T.tab[b][0] in ("size", "r", "s", "op"):
            cx.check(slack(T, b, T.mk("size", T.mk("r", ("p", q), ()))) == 0, "make-bounds", f.f, "elements are written up to %s" % T.show(b), w)
    if not n:
        raise AnalysisError("no return path in %s" % f.f)


def slack(T, alloc, size):
    """alloc - size in elements, when alloc is (size + k) or sizeof * size."""
    k = T.tab[alloc]
    if alloc == size:
        return 0
    if k[0] == "op" and k[1] == "+":
        for a, b in ((k[2], k[3]), (k[3], k[2])):
            if a == size and T.const(b)[0]:
                return T.const(b)[1]
    if k[0] == "op" and k[1] == "*":
        for a, b in ((k[2], k[3]), (k[3], k[2])):
            if T.const(b)[0] and T.const(b)[1] >= 16:
                return slack(T, a, size)
            if T.const(b)[0] and T.const(b)[1] == 1:
                return slack(T, a, size)
    return None


def qrcheck(cx, p, f, wh):
    class RQ(R):
        def no_inline(self, I, fn):
            return fn.f.endswith(("::MakeCStringArray", "::MakeCString")) or R.no_inline(self, I, fn)

        def call(self, I, st, n, ff, obj, args):
            if models.strip(ff).endswith("::MakeCStringArray") and args:
                x = I.T.show(args[0].av.t, 8)
                return [(st, RV(AV(I.T.fresh("arr"), frozenset(h for h in ("first", "second") if h in x), (), ()), None))]
            return R.call(self, I, st, n, ff, obj, args)
    r = RQ()
    I, outs = analyse(p, r, f, None)
    q = f.d["ps"][0]["n"]
    T = I.T
    n = 0
    for st, rv in outs:
        if I.isc(rv.av) == (True, 0):
            continue
        n += 1
        if not rv.av.ref:
            raise AnalysisError("cannot follow the result of %s" % f.f)
        l = rv.av.ref[0]
        for fld in ("row_count", "labeled", "keys", "values"):
            a = st.store.get(l + (fld,))
            sub = [k for k in st.store if k[:len(l) + 1] == l + (fld,)]
            cx.check(bool(sub), "result-fields", "%s: %s" % (f.f, fld), "a path leaves %s of the result unset" % fld, wh)
        show = lambda fld: T.show(I.rd(st, l + (fld,)).t, 8)
        for fld, src, oth in (("keys", "first", "second"), ("values", "second", "first")):
            a = st.store.get(l + (fld,))
            cx.check(a is not None and oth not in a.lab and (src in a.lab or I.isc(I.rd(st, l + (fld, "data"))) == (True, 0)), "result-content", "%s: %s" % (f.f, fld), "%s of the result are built from the wrong half of the query result" % fld, wh)
        lb = show("labeled")
        c, v = I.isc(I.rd(st, l + ("labeled",)))
        if c:
            em = [x for k, x in st.conds.items() if "second" in T.show(k, 8) and "first" not in T.show(k, 8)]
            cx.check(bool(em), "result-labeled", f.f, "labeled is set without looking at the values", wh)
        else:
            cx.check("second" in lb and "first" not in lb or "values" in lb, "result-labeled", f.f, "labeled is %s, not whether there are values" % lb, wh)
        rc = show("row_count")
        cx.check("first" in rc and "size" in rc or "?" in rc and "size" in rc, "result-rows", f.f, "row_count is %s, not the number of keys" % rc, wh)
    if not n:
        raise AnalysisError("no result path in %s" % f.f)

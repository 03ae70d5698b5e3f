"""C26 the body of a parallel loop writes only what belongs to its own range, or under a lock."""
import re
from prog import AnalysisError, fn_nodes, visit
from c04 import test
import models

CONSTM = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "at", "front", "back", "get", "find", "operator[]", "operator*", "operator->", "value", "lower_bound", "upper_bound", "equal_range", "subspan",
          "operator bool", "native_handle", "c_str", "first", "last"}
THRU = {"data", "get", "value", "operator*", "operator->", "begin", "cbegin", "c_str"}
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "absl::MutexLock", "absl::WriterMutexLock", "std::shared_lock")
QUIET = ("spdlog::", "fmt::", "yacl::EnforceMsg", "yacl::GetStacktraceString", "std::move", "std::forward", "absl::MakeSpan", "absl::MakeConstSpan", "std::min", "std::max", "operator new", "operator delete", "std::swap_dummy",
         "yacl::CheckNotNull", "std::make_unique", "std::make_shared", "absl::StrCat", "seal::util::")
MAPS = ("std::map", "std::unordered_map", "absl::flat_hash_map", "absl::node_hash_map", "google::dense_hash_map", "std::multimap", "phmap::flat_hash_map", "ankerl::unordered_dense::map", "google::protobuf::Map")
BITS = ("std::bitset", "boost::dynamic_bitset", "std::vector<bool>", "std::_Bit_reference")
# objects whose methods several threads may call: the link's context and channels, apsi's channels, seal's memory pool
SAFE = ("yacl::link::Context", "apsi::network::", "psi::apsi_wrapper::YaclChannel", "seal::MemoryPoolHandle")
MAXDEPTH = 4


# ---- polynomials over symbols: {sorted tuple of symbols: coefficient}
def pc(v):
    return {(): v} if v else {}


def ps(s):
    return {(s,): 1}


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if not r[m]:
            del r[m]
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for q, d in b.items():
            x = tuple(sorted(m + q, key=str))
            r[x] = r.get(x, 0) + c * d
            if not r[x]:
                del r[x]
    return r


def syms(p):
    return {s for m in p for s in m}


def psub(p, s, v):
    r = {}
    for m, c in p.items():
        t = pc(c)
        for x in m:
            t = pmul(t, v if x == s else ps(x))
        r = padd(r, t)
    return r


class Fr:
    """One function (or lambda) body being looked at: what its variables stand for."""
    __slots__ = ("no", "T", "env", "poly", "this", "assigned", "up", "fn")

    def __init__(self, no, T, this, assigned, up=None, fn=None):
        self.no, self.T, self.this, self.assigned, self.up, self.fn = no, T, this, assigned, up, fn
        self.env, self.poly = {}, {}


class Body:
    def __init__(self, p, fn, lam, cx):
        self.p, self.fn, self.lam, self.cx = p, fn, lam, cx
        self.out = []          # (root, why, where, locked by)
        self.reads = []
        self.range = {}        # loop variable symbol -> (low, high)
        self.n = 0
        self.frames = 0
        self.unknown = 0
        self.stack = []
        self.names = {}
        self.memo = {}
        self.sites = 0

    # ---- values
    def ty(self, fr, t):
        return fr.T[t] if isinstance(t, int) and 0 <= t < len(fr.T) else {}

    def value(self, fr, n):
        """Polynomial of an integer expression."""
        if n is None:
            return ps("?")
        k = n["k"]
        if "cv" in n and isinstance(n["cv"], (int, str)) and k in ("int", "enum", "sizeof", "var"):
            try:
                return pc(int(n["cv"]))
            except ValueError:
                pass
        if k in ("cast", "conv", "copy", "expr"):
            return self.value(fr, n["e"])
        if k == "var":
            i = n.get("id")
            f = fr
            while f is not None:
                if i in f.poly:
                    return f.poly[i]
                if i in f.env:
                    break
                f = f.up
            return ps(("v", i, n.get("n")))
        if k == "bin":
            a, b = self.value(fr, n["x"]), self.value(fr, n["y"])
            if n["op"] == "+":
                return padd(a, b)
            if n["op"] == "-":
                return padd(a, b, -1)
            if n["op"] == "*":
                return pmul(a, b)
            if n["op"] == "<<" and set(b) <= {()}:
                return pmul(a, pc(2 ** b.get((), 0)))
            if n["op"] in ("/", "%", ">>", "&"):
                return ps(("op", n["op"], self.key(a), self.key(b)))
            return ps(("op", n["op"], self.key(a), self.key(b)))
        if k == "un" and n["op"] in ("++", "--"):
            return self.value(fr, n["e"])
        if k == "un" and n["op"] == "-":
            return padd({}, self.value(fr, n["e"]), -1)
        if k in ("call", "opcall", "mem", "idx", "cond", "ctor"):
            fs = [self.value(fr, x) for x in self.kids(n)]
            return ps(("fn", models.strip(n.get("f") or n.get("n") or k), tuple(self.key(x) for x in fs)))
        sub = self.allkids(n)
        if sub and k != "lambda":
            return ps(("fn", k, tuple(self.key(self.value(fr, x)) for x in sub)))
        return ps(("?", id(n)))

    def kids(self, n):
        if n["k"] == "mem":
            return [n["b"]]
        if n["k"] == "idx":
            return [n["b"], n["i"]]
        if n["k"] == "cond":
            return [x for x in (n.get("c"), n.get("x"), n.get("y")) if x]
        return ([n["o"]] if n.get("o") else []) + [a for a in n.get("a", []) if a]

    def key(self, p):
        return tuple(sorted(((m, c) for m, c in p.items()), key=str))

    def inner(self, p):
        """Symbols deep inside a polynomial."""
        out = set()

        def go(x):
            if isinstance(x, tuple):
                out.add(x)
                for y in x:
                    go(y)
        for m in p:
            for s in m:
                go(s)
        return out

    # ---- places
    def path(self, fr, n):
        """-> (root, [steps]) where a step is a field name or ("i", polynomial)."""
        if n is None:
            return ("none",), []
        k = n["k"]
        if k in ("cast", "conv", "copy", "expr"):
            return self.path(fr, n["e"])
        if k == "var":
            if n.get("g"):
                return ("global", n["g"]), []
            i = n.get("id")
            f = fr
            while f is not None:
                if i in f.env:
                    return f.env[i]
                f = f.up
            return ("captured", n.get("n")), []
        if k == "this":
            f = fr
            while f.this is None and f.up is not None:
                f = f.up
            return f.this if f.this is not None else (("this",), [])
        if k == "mem":
            r, s = self.path(fr, n["b"])
            return r, s + [n["n"]]
        if k == "idx":
            r, s = self.path(fr, n["b"])
            return r, s + [("i", self.value(fr, n["i"]))]
        if k == "un":
            if n["op"] in ("&", "*"):
                return self.path(fr, n["e"])
            return self.path(fr, n["e"])
        if k == "bin" and n["op"] in ("+", "-"):
            r, s = self.path(fr, n["x"])
            if r[0] in ("none", "fresh"):
                return r, s
            v = self.value(fr, n["y"])
            return r, s + [("i", v if n["op"] == "+" else padd({}, v, -1))]
        if k == "opcall":
            a = n["a"]
            if n["op"] == "[]":
                r, s = self.path(fr, a[0])
                return r, s + [("i", self.value(fr, a[1]))]
            if n["op"] in ("+", "-") and len(a) == 2:
                r, s = self.path(fr, a[0])
                v = self.value(fr, a[1])
                return r, s + [("i", v if n["op"] == "+" else padd({}, v, -1))]
            if n["op"] in ("*", "->", "=", "+=", "++", "--"):
                return self.path(fr, a[0])
            if n["op"] == "()":
                r, s = self.path(fr, a[0])
                return r, s + [("i", self.value(fr, x)) for x in a[1:]]
            return ("fresh",), []
        if k == "call":
            b = models.strip(n.get("f") or "")
            m = b.rpartition("::")[2]
            if b in ("std::move", "std::forward", "absl::MakeSpan", "absl::MakeConstSpan", "std::ref", "std::addressof", "std::get") and n["a"]:
                r, s = self.path(fr, n["a"][0])
                return r, s + ([("i", self.value(fr, n["a"][1]))] if len(n["a"]) > 1 and b.startswith("absl") else [])
            if b in ("std::next", "std::advance") and len(n["a"]) == 2:
                r, s = self.path(fr, n["a"][0])
                return r, s + [("i", self.value(fr, n["a"][1]))]
            o = n.get("o")
            if o is not None:
                r, s = self.path(fr, o)
                f = self.p.fns.get(n.get("u"))
                if m in ("at", "subspan") and n["a"]:
                    return r, s + [("i", self.value(fr, n["a"][0]))]
                if m in ("front", "first"):
                    return r, s + [("i", {})]
                if m == "back":
                    return r, s + [("i", ps("last"))]
                if m.startswith("mutable_") and n.get("pb"):
                    return r, s + [m[8:]] + [("i", self.value(fr, x)) for x in n["a"]]
                if m in THRU:
                    return r, s
                if f is not None and f.d.get("body"):
                    b = [x for x in f.d["body"].get("s", []) if x["k"] not in ("null",)]
                    if b and b[-1]["k"] == "ret" and len(self.stack) < MAXDEPTH + 2 and (self.ty2(f, f.d.get("rt")).get("ref") or self.ty2(f, f.d.get("rt")).get("ptr") or "Span" in self.ty2(f, f.d.get("rt")).get("rec", "")):
                        g = self.enter(fr, f, n, (r, s))
                        return self.path(g, b[-1]["e"])
                t = self.ty(fr, n.get("t"))
                if t.get("ref") or t.get("ptr") or "Span" in (t.get("rec") or "") or "iterator" in (t.get("s") or ""):
                    return r, s + ["%s()" % m] + [("i", self.value(fr, x)) for x in n["a"]]
                return ("fresh",), []
            return ("fresh",), []
        if k == "cond":
            a, b = self.path(fr, n["x"]), self.path(fr, n["y"])
            return a if a[0][0] not in ("fresh", "none", "local") else b
        if k == "ctor":
            c = n.get("c") or ""
            if c.partition("<")[0] in ("absl::Span", "yacl::ByteContainerView", "std::string_view", "std::basic_string_view", "std::shared_ptr", "std::reference_wrapper", "__gnu_cxx::__normal_iterator") and n["a"]:
                return self.path(fr, n["a"][0])
        return ("fresh",), []

    def ty2(self, f, t):
        return f.T[t] if isinstance(t, int) and 0 <= t < len(f.T) else {}

    # ---- whose element is it
    def mine(self, steps):
        """None when one of the steps selects an element that belongs to this range; otherwise why not."""
        why = "it is not selected by the loop's own index"
        parts = [self.part] if False else list(self.range)
        for s in steps:
            if not (isinstance(s, tuple) and s[0] == "i"):
                continue
            p = s[1]
            deep = self.inner(p)
            if self.begin != ("none",) and self.begin in syms(p) and not (syms(p) & set(self.range)):
                # begin + offset with the offset below end - begin
                q = p
                rest = [x for x in syms(q) if x in self.loops]
                ok = True
                for x in rest:
                    lo, hi = self.loops[x]
                    ok = ok and padd(psub(q, x, hi), psub(q, x, lo), -1) == padd(ps(self.end), ps(self.begin), -1) and q.get((x,)) == 1
                if q.get((self.begin,)) == 1 and ok and rest:
                    return None
                if q == ps(self.begin):
                    return None         # the first element of the range
                why = "its index is not shown to stay inside the range"
                continue
            for x in parts:
                if x not in deep:
                    continue
                if x not in syms(p):
                    f = [y for y in deep if isinstance(y, tuple) and len(y) == 4 and y[0] == "op" and x in self.flat(y[2])]
                    if any(y[1] in ("/", "%", ">>", "&") for y in f) and len(syms(p)) == 1:
                        why = "different iterations select the same element (%s)" % f[0][1]
                        continue
                    return None         # an index computed by a function of the loop index
                A = {tuple(sorted([z for z in m if z != x], key=str)): c for m, c in p.items() if m.count(x) == 1}
                B = {m: c for m, c in p.items() if x not in m}
                if any(m.count(x) > 1 for m in p):
                    return None
                lo, hi = self.range[x]
                inner = [z for z in syms(B) if z in self.loops and z not in self.range]
                if A == pc(1) or A == pc(-1):
                    if self.begin != ("none",) and lo is not None and self.begin in syms(lo) and B.get((self.begin,)) == -1:
                        why = "iterations of different ranges select the same element"
                        continue
                    if self.begin != ("none",) and lo is not None and set(lo) <= {()} and B.get((self.begin,)) != 1:
                        why = "the loop leaves its own range"
                        continue
                    if any(B.get((z,)) for z in inner):
                        why = "iterations of different ranges select the same element"
                        continue
                    if lo is None:
                        return None
                    # the same offset for both ends
                    if padd(hi, ps(self.end), -1) and padd(hi, lo, -1) != padd(ps(self.end), ps(self.begin), -1):
                        why = "the loop leaves its own range"
                        continue
                    return None
                for z in inner:
                    l2, h2 = self.loops[z]
                    if B.get((z,)) == 1 and h2 is not None and h2 != A and not (syms(h2) & syms(A)) and set(A) <= {()} and set(h2) <= {()} and h2.get((), 0) > A.get((), 0):
                        why = "iterations of different ranges select the same element"
                        break
                else:
                    return None
        return why

    def flat(self, k):
        out = set()

        def go(x):
            if isinstance(x, tuple):
                out.add(x)
                for y in x:
                    go(y)
        go(k)
        return out

    def wrote(self, fr, n, path, what, bits=False):
        r, s = path
        if r[0] in ("local", "fresh", "none", "copy", "lambda"):
            return
        self.sites += 1
        lock = tuple(sorted(self.held))
        why = self.mine(s)
        if why is None and not lock:
            why = self.shifted(self.name(path), s)
        if why is None and not bits:
            self.out.append((self.name(path), None, self.where(n), lock, what))
            return
        if why is None and bits:
            why = "neighbouring bits share a byte"
        self.out.append((self.name(path), why, self.where(n), lock, what))

    def shifted(self, name, steps, read=False):
        """Two iterations meet when one touches x[i] and the other x[i + 1]."""
        for s in steps:
            if not (isinstance(s, tuple) and s[0] == "i"):
                continue
            p = s[1]
            xs = [x for x in syms(p) if x in self.range]
            if len(xs) != 1 or any(m.count(xs[0]) > 1 or len(m) > 1 for m in p):
                return None
            x = xs[0]
            k, off = p[(x,)], {m: c for m, c in p.items() if x not in m}
            if read:
                return (k, off)
            seen = self.offsets.setdefault(name, [])
            if (k, off) not in seen:
                seen.append((k, off))
            for q, o in seen:
                d = padd(off, o, -1)
                if q == k and d and set(d) <= {()} and d[()] % k == 0:
                    return "another iteration writes the element %d further on" % abs(d[()] // k)
            return None
        return None

    def name(self, path):
        r, s = path
        x = r[1] if len(r) > 1 else "this"
        for y in s:
            x += "[]" if isinstance(y, tuple) else "." + y
        return x

    def where(self, n):
        return "%s:%s" % (self.files[-1], n.get("l") or self.line)

    # ---- statements
    def assigned(self, body):
        out = set()
        for x in visit(body):
            t = None
            if x["k"] == "assign":
                t = x["x"]
            elif x["k"] == "un" and x["op"] in ("++", "--"):
                t = x["e"]
            elif x["k"] == "opcall" and x["op"] in ("=", "+=", "-=", "++", "--"):
                t = x["a"][0]
            while t is not None and t["k"] in ("cast", "conv", "copy"):
                t = t["e"]
            if t is not None and t["k"] == "var":
                out.add(t.get("id"))
        return out

    def run(self, call=None, task=None):
        lam = self.lam
        self.call_ = call
        self.outer = Body(self.p, self.fn, lam, self.cx)
        self.outer.files, self.outer.line, self.outer.loops, self.outer.held = [self.fn.file], 0, {}, []
        self.ofr = Fr(0, self.fn.T, None, set(), None, self.fn)
        fr = Fr(0, self.fn.T, None, self.assigned(lam["body"]), None, self.fn)
        self.files = [lam.get("file") or self.fn.file]
        self.line = lam.get("l")
        self.fresh = set()
        if task is None:
            b, e = lam["ps"][0], lam["ps"][1]
            self.begin, self.end = ("v", b["id"], b["n"]), ("v", e["id"], e["n"])
            fr.env[b["id"]] = fr.env[e["id"]] = (("local",), [])
            fr.poly[b["id"]], fr.poly[e["id"]] = ps(self.begin), ps(self.end)
        else:
            self.begin = self.end = ("none",)
            own, fresh, given = task
            for i, nm in own.items():
                s = ("v", i, nm)
                self.range[s] = (None, None)
                fr.poly[i] = ps(s)
                fr.env[i] = (("local",), [])
            for i in fresh:
                fr.env[i] = (("local",), [])
            for q in lam["ps"]:
                t = self.ty(fr, q.get("t"))
                if q["id"] in given:
                    s = ("v", q["id"], q.get("n"))
                    self.range[s] = (None, None)
                    fr.poly[q["id"]] = ps(s)
                fr.env[q["id"]] = (("local",), [])
        for c in lam.get("caps", []):
            if "id" in c and not c.get("ref") and not c.get("this"):
                t = self.ty(fr, c.get("t"))
                if not t.get("ptr") and "shared_ptr" not in (t.get("rec") or ""):
                    fr.env.setdefault(c["id"], (("captured", c.get("n")), []))
        self.loops = {}
        self.offsets = {}
        self.peeks = []
        self.held = []
        self.stmt(fr, lam["body"])

    def stmt(self, fr, n):
        if n is None:
            return
        k = n["k"]
        if k == "block":
            h = list(self.held)
            for s in n["s"]:
                self.stmt(fr, s)
            self.held = h
        elif k == "decl":
            self.decl(fr, n)
        elif k == "for":
            h = list(self.held)
            self.loop(fr, n)
            self.held = h
        elif k == "rfor":
            self.expr(fr, n["r"])
            v = n["v"]
            r, s = self.path(fr, n["r"])
            t = self.ty(fr, v.get("t"))
            sub = n["r"]
            while sub["k"] in ("cast", "conv", "copy"):
                sub = sub["e"]
            step = ("i", ps(("each", v.get("id"))))
            if sub["k"] == "call" and models.strip(sub.get("f") or "").endswith("::subspan") and len(sub["a"]) == 2:
                lo, ln = self.value(fr, sub["a"][0]), self.value(fr, sub["a"][1])
                if ln == padd(ps(self.end), ps(self.begin), -1) and lo.get((self.begin,)) == 1:
                    s = s[:-1]
                    step = ("i", ps(self.begin))
            fr.env[v.get("id")] = (r, s + [step]) if t.get("ref") or t.get("ptr") or not t else (("local",), [])
            for x in v.get("bind") or []:
                fr.env[x.get("id")] = fr.env[v.get("id")]
            self.forget(fr, n["b"])
            self.stmt(fr, n["b"])
            self.forget(fr, n["b"])
        elif k in ("while", "do"):
            c = n.get("c")
            self.forget(fr, n["b"], c)
            self.cond_range(fr, c)
            self.expr(fr, c)
            h = list(self.held)
            self.stmt(fr, n["b"])
            self.held = h
            self.forget(fr, n["b"], c)
        elif k == "if":
            self.expr(fr, n["c"]) if n["c"]["k"] != "decl" else self.stmt(fr, n["c"])
            h = list(self.held)
            self.stmt(fr, n.get("x"))
            self.held = list(h)
            self.stmt(fr, n.get("y"))
            self.held = h
            self.forget(fr, n.get("x"), n.get("y"))
        elif k == "switch":
            self.expr(fr, n["c"])
            self.stmt(fr, n["b"])
        elif k in ("case", "default"):
            self.stmt(fr, n.get("s"))
        elif k == "try":
            self.stmt(fr, n["b"])
            for x in n.get("h", []):
                self.stmt(fr, x.get("b") if isinstance(x, dict) else None)
        elif k == "catch":
            self.stmt(fr, n.get("b"))
        elif k in ("ret", "expr", "throw"):
            self.expr(fr, n.get("e"))
        elif k in ("null", "break", "continue"):
            pass
        else:
            self.expr(fr, n)

    def cond_range(self, fr, c):
        """while (i < end): a loop over the range by hand."""
        while c is not None and c["k"] in ("cast", "conv", "copy"):
            c = c["e"]
        if c is None or c["k"] != "bin" or c["op"] not in ("<", "!="):
            return
        x = c["x"]
        while x["k"] in ("cast", "conv", "copy"):
            x = x["e"]
        if x["k"] != "var" or x.get("id") not in fr.assigned:
            return
        s = ("v", x.get("id"), x.get("n"))
        lo = self.inits.get(x.get("id")) if hasattr(self, "inits") else None
        self.bound(s, lo, self.value(fr, c["y"]))

    def bound(self, s, lo, hi):
        self.loops[s] = (lo if lo is not None else {}, hi)
        if self.begin == ("none",):
            lo, hi = lo if lo is not None else {}, hi
        if lo is None or self.begin in syms(lo) or self.end in syms(hi):
            self.range[s] = (lo, hi)
        elif self.begin == ("none",) and any(x in self.inner(lo) for x in self.range):
            self.range[s] = (None, None)

    def loop(self, fr, n):
        i = n.get("i")
        names = []
        for d in (i["s"] if i is not None and i["k"] == "block" else [i] if i is not None else []):
            self.stmt(fr, d)
            if d["k"] == "decl":
                names.append(d)
        self.forget(fr, n.get("b"), n.get("n"), n.get("c"))
        c = n.get("c")
        while c is not None and c["k"] in ("cast", "conv", "copy"):
            c = c["e"]
        if c is not None and c["k"] == "bin" and c["op"] in ("<", "!=", "<=", ">", ">="):
            x, y, op = c["x"], c["y"], c["op"]
            for v in (x, y):
                w = v
                while w["k"] in ("cast", "conv", "copy"):
                    w = w["e"]
                if w["k"] == "var" and w.get("id") in fr.assigned:
                    lo = self.inits.get(w["id"])
                    hi = self.value(fr, y if v is x else x)
                    if op == "<=" and v is x or op == ">=" and v is y:
                        hi = padd(hi, pc(1))
                    if (op in (">", ">=")) == (v is x):
                        # counts down: from end - 1 to begin
                        if lo is not None:
                            lo, hi = (hi if op == ">=" else padd(hi, pc(1))), padd(lo, pc(1))
                    self.bound(("v", w["id"], w.get("n")), lo, hi)
                    break
        self.expr(fr, n.get("c"))
        self.stmt(fr, n.get("b"))
        self.expr(fr, n.get("n"))
        self.forget(fr, n.get("b"), n.get("n"))

    def decl(self, fr, n):
        e = n.get("e")
        t = self.ty(fr, n.get("t"))
        rec = (t.get("rec") or "").partition("<")[0]
        if rec in LOCKS and e is not None:
            a = e
            while a is not None and a["k"] in ("cast", "conv", "copy"):
                a = a["e"]
            args = a.get("a", [])
            for m in args:
                p = self.path(fr, m)
                if p[0][0] not in ("local", "fresh", "none"):
                    self.held = self.held + [self.name(p)]
            fr.env[n["id"]] = (("local",), [])
            return
        if e is not None:
            self.expr(fr, e)
        if not hasattr(self, "inits"):
            self.inits = {}
        if e is not None and "int" in t:
            v = self.value(fr, e)
            self.inits[n["id"]] = v
            self.names[n["id"]] = n["n"]
            fr.poly[n["id"]] = v
        alias = t.get("ref") or t.get("ptr") or rec in ("absl::Span", "yacl::ByteContainerView", "std::shared_ptr", "std::reference_wrapper") or "iterator" in (t.get("s") or "") or "iterator" in (t.get("rec") or "") or not t
        p = self.path(fr, e) if e is not None and alias and not self.lamb(e) else (("local",), [])
        if p[0][0] in ("fresh", "none"):
            p = (("local",), [])
        fr.env[n["id"]] = p
        if self.lamb(e):
            fr.env[n["id"]] = (("lambda", self.lamb(e)), [])
        for x in n.get("bind") or []:
            fr.env[x.get("id") if isinstance(x, dict) else x] = p

    def lamb(self, e):
        while e is not None and e["k"] in ("cast", "conv", "copy") or e is not None and e["k"] == "ctor" and e.get("c") == "std::function" and e["a"]:
            e = e["e"] if e["k"] != "ctor" else e["a"][0]
        return e if e is not None and e["k"] == "lambda" else None

    def note(self, fr, n):
        if n["k"] == "var" and not n.get("g"):
            f = fr
            while f is not None:
                if n.get("id") in f.env:
                    return      # a pointer is read, not what it points to
                f = f.up
        r, s = self.path(fr, n)
        if r[0] in ("captured", "this", "global"):
            self.reads.append((self.name((r, s)), self.where(n), tuple(sorted(self.held)), self.mine(s) is None))
            o = self.shifted(None, s, read=True)
            if o is not None:
                self.peeks.append((self.name((r, s)), o, self.where(n), tuple(sorted(self.held))))

    def expr(self, fr, n):
        if n is None or not isinstance(n, dict) or "k" not in n:
            return
        k = n["k"]
        if k == "lambda":
            return
        if k == "decl":
            self.decl(fr, n)
            return
        if k == "assign":
            self.expr(fr, n["y"])
            self.sub(fr, n["x"])
            if self.atomic(fr, n["x"]):
                return
            x = n["x"]
            self.rebind(fr, n)
            self.wrote(fr, n, self.path(fr, x), "assignment") if not self.isptr(fr, x) else None
            return
        if k == "un" and n["op"] in ("++", "--"):
            self.sub(fr, n["e"])
            x = n["e"]
            if x["k"] == "var" and x.get("id") in fr.poly and ("v", x["id"], x.get("n")) not in self.loops:
                fr.poly[x["id"]] = padd(fr.poly[x["id"]], pc(1 if n["op"] == "++" else -1))
            if not self.isptr(fr, n["e"]):
                self.wrote(fr, n, self.path(fr, n["e"]), n["op"])
            return
        if k == "opcall":
            self.opcall(fr, n)
            return
        if k in ("call", "ctor"):
            self.call(fr, n)
            return
        if k == "un" and n["op"] == "&":
            self.sub(fr, n["e"])
            return
        if k in ("mem", "var"):
            self.note(fr, n)
            self.sub(fr, n)
            return
        self.sub(fr, n)

    def sub(self, fr, n):
        k = n["k"]
        if k == "mem":
            self.sub(fr, n["b"])
        elif k == "idx":
            self.sub(fr, n["b"])
            self.expr(fr, n["i"])
        elif k == "opcall" and n["op"] in ("[]", "*", "->"):
            if n["op"] == "[]":
                self.mapread(fr, n)
            self.sub(fr, n["a"][0])
            for a in n["a"][1:]:
                self.expr(fr, a)
        elif k == "var" or k == "this" or k == "lambda":
            return
        elif k in ("call", "ctor"):
            self.call(fr, n)
        elif k == "opcall":
            self.opcall(fr, n)
        else:
            for x in self.allkids(n):
                self.expr(fr, x)

    def allkids(self, n):
        from prog import kids
        return list(kids(n))

    def isptr(self, fr, n):
        """A plain local pointer or iterator variable moves: no memory is written."""
        while n["k"] in ("cast", "conv", "copy"):
            n = n["e"]
        if n["k"] != "var" or n.get("g"):
            return False
        i = n.get("id")
        f = fr
        while f is not None:
            if i in f.env:
                return True if f.env[i][0][0] != "captured" or i in self.localids else False
            f = f.up
        return False

    localids = frozenset()

    def rebind(self, fr, n):
        """An integer local is given another value."""
        x = n["x"]
        while x["k"] in ("cast", "conv", "copy"):
            x = x["e"]
        if x["k"] == "var" and x.get("id") in fr.poly:
            v = self.value(fr, n["y"])
            old = fr.poly[x["id"]]
            s = ("v", x["id"], x.get("n"))
            if old == ps(s) and s in self.loops:
                return
            fr.poly[x["id"]] = v if n["op"] == "=" else padd(old, v) if n["op"] == "+=" else padd(old, v, -1) if n["op"] == "-=" else ps(("?", id(n)))

    def forget(self, fr, *ns):
        for n in ns:
            for i in self.assigned(n) if n is not None else ():
                if i in fr.poly:
                    fr.poly[i] = ps(("v", i, self.names.get(i)))

    def atomic(self, fr, n):
        f = n.get("f") or ""
        return "std::atomic" in f

    def mapread(self, fr, n):
        f = models.strip(n.get("f") or "")
        c = (n.get("f") or "").rpartition("::operator[]")[0].partition("<")[0]
        if c in MAPS:
            r, s = self.path(fr, n["a"][0])
            if self.filled(fr, (r, s), n["a"][1]):
                return
            self.wrote(fr, n, (r, s), "operator[] of a map, which may insert")

    def filled(self, fr, path, i):
        """Every key the loop uses has been inserted before it starts."""
        v = self.value(fr, i)
        x = [s for s in self.range if v == ps(s)]
        if not x or self.call_ is None or self.range[x[0]] != (ps(self.begin), ps(self.end)):
            return False
        lo, hi = self.outer.value(self.ofr, self.call_["a"][0]), self.outer.value(self.ofr, self.call_["a"][1])
        for n in fn_nodes(self.fn):
            if n is self.call_:
                break
            if n["k"] != "for" or (n.get("l") or 0) > (self.call_.get("l") or 0):
                continue
            d, c = n.get("i"), n.get("c")
            while c is not None and c["k"] in ("cast", "conv", "copy"):
                c = c["e"]
            if d is None or d["k"] != "decl" or c is None or c["k"] != "bin" or c["op"] not in ("<", "!="):
                continue
            if self.outer.value(self.ofr, d.get("e")) != lo or self.outer.value(self.ofr, c["y"]) != hi:
                continue
            for y in (n["b"]["s"] if n["b"]["k"] == "block" else [n["b"]]):
                for z in visit(y):
                    if z["k"] in ("if", "cond", "for", "while", "lambda"):
                        break
                    a = z.get("a") or []
                    m = models.strip(z.get("f") or "").rpartition("::")[2]
                    if z["k"] == "opcall" and z["op"] == "[]":
                        o, key = a[0], a[1]
                    elif z["k"] == "call" and m in ("try_emplace", "emplace", "insert") and a and z.get("o"):
                        o, key = z["o"], a[0]
                    else:
                        continue
                    while key["k"] in ("cast", "conv", "copy", "ctor") and (key.get("e") or key.get("a")):
                        key = key["e"] if key["k"] != "ctor" else key["a"][0]
                    if self.name(self.outer.path(self.ofr, o)) == self.name(path) and key["k"] == "var" and key.get("id") == d.get("id"):
                        return True
        return False

    def opcall(self, fr, n):
        op, a = n["op"], n["a"]
        f = n.get("f") or ""
        c = f.rpartition("::operator")[0].partition("<")[0]
        if op in ("=", "+=", "-=", "*=", "/=", "^=", "|=", "&=", "%=", "<<=", ">>=", "++", "--"):
            for x in a[1:]:
                self.expr(fr, x)
            self.sub(fr, a[0])
            if "std::atomic" in c or "atomic" in c:
                return
            bits = c in ("std::_Bit_reference", "std::vector::reference") or self.bitty(fr, a[0])
            if op in ("++", "--", "+=", "-=", "=") and self.isptr(fr, a[0]) and self.path(fr, a[0])[0][0] in ("local", "lambda"):
                return
            if op in ("++", "--", "+=", "-=") and self.isptr(fr, a[0]):
                return
            self.wrote(fr, n, self.path(fr, a[0]), "assignment", bits)
            return
        if op == "[]":
            self.mapread(fr, n)
            self.note(fr, n)
            self.sub(fr, a[0])
            for x in a[1:]:
                self.expr(fr, x)
            return
        if op == "()":
            self.invoke(fr, n, a[0], a[1:])
            return
        if op in ("<<", ">>") and a:
            t = self.ty(fr, n["pt"][0]) if n.get("pt") else {}
            for x in a:
                self.expr(fr, x)
            if t.get("ref") and not t.get("cref") and not str(t.get("s", "")).startswith("const ") or "stream" in c:
                self.wrote(fr, n, self.path(fr, a[0]), "stream output")
            return
        for x in a:
            self.expr(fr, x)

    def bitty(self, fr, n):
        while n["k"] in ("cast", "conv", "copy"):
            n = n["e"]
        if n["k"] == "opcall" and n["op"] == "[]" or n["k"] == "call":
            f = n.get("f") or ""
            return any(f.startswith(b) for b in BITS) or f.startswith("std::vector<bool")
        return False

    def invoke(self, fr, n, callee, args):
        for x in args:
            self.expr(fr, x)
        r, s = self.path(fr, callee)
        if r[0] == "lambda":
            self.inline_lambda(fr, r[1], args)
            return
        self.sub(fr, callee)
        f = self.p.fns.get(n.get("u"))
        if f is not None and f.d.get("body"):
            self.inline(fr, f, n, (r, s), args)
            return
        if n.get("f", "").startswith("std::function"):
            # what a function object does is judged where it is made, not here
            self.unknown += 1
            return
        if not n.get("constm") and "const" not in (n.get("q") or ""):
            self.wrote(fr, n, (r, s), "call operator")

    def enter(self, fr, f, n, this):
        g = Fr(self.frames + 1, f.T, this, self.assigned(f.d.get("body")), None, f)
        self.frames += 1
        args = n.get("a", [])
        if n["k"] == "opcall":
            args = args[1:] if n.get("meth") else args
        for q, a in zip(f.d["ps"], args):
            t = f.T[q["t"]] if q["t"] >= 0 else {}
            rec = (t.get("rec") or "").partition("<")[0]
            i = q.get("id")
            if a is None:
                continue
            if "int" in t and not t.get("ref") and not t.get("ptr"):
                g.env[i] = (("local",), [])
                if i not in g.assigned:
                    g.poly[i] = self.value(fr, a)
            elif t.get("ref") or t.get("rref") or t.get("ptr") or rec in ("absl::Span", "yacl::ByteContainerView", "std::shared_ptr", "std::string_view") or "iterator" in (t.get("s") or ""):
                g.env[i] = self.path(fr, a)
                if "int" in t:
                    g.poly[i] = self.value(fr, a)
            else:
                g.env[i] = (("local",), [])
        return g

    def inline(self, fr, f, n, this, args):
        if f.u in self.stack or len(self.stack) >= MAXDEPTH:
            return
        g = self.enter(fr, f, n, this)
        # nothing shared goes in: nothing shared comes out (but for globals)
        if this[0][0] in ("local", "fresh", "none") and all(p[0][0] in ("local", "fresh", "none") for p in g.env.values()):
            return
        self.body(g, f.u, f.d["body"], f.file)

    def body(self, g, u, body, file):
        self.stack.append(u)
        self.files.append(file)
        l, self.line = self.line, None
        h = list(self.held)
        keep = getattr(self, "inits", {})
        self.inits = dict(keep)
        self.stmt(g, body)
        self.inits = keep
        self.held = h
        self.line = l
        self.files.pop()
        self.stack.pop()

    def inline_lambda(self, fr, lam, args):
        u = "lambda%d" % id(lam)
        if u in self.stack:
            return
        f = fr
        g = Fr(self.frames + 1, fr.T, None, self.assigned(lam["body"]), fr, fr.fn)
        self.frames += 1
        for q, a in zip(lam["ps"], args):
            t = self.ty(fr, q.get("t"))
            if "int" in t and not t.get("ref"):
                g.env[q["id"]] = (("local",), [])
                if q["id"] not in g.assigned:
                    g.poly[q["id"]] = self.value(fr, a)
            elif t.get("ref") or t.get("ptr") or "Span" in (t.get("rec") or "") or not t:
                g.env[q["id"]] = self.path(fr, a)
            else:
                g.env[q["id"]] = (("local",), [])
        self.body(g, u, lam["body"], self.files[-1])

    def call(self, fr, n):
        b = models.strip(n.get("f") or "")
        o = n.get("o")
        args = [a for a in n.get("a", []) if a is not None]
        m = b.rpartition("::")[2]
        if b.endswith("parallel_for"):
            for a in args:
                lam = self.lamb(a)
                if lam is None and a["k"] == "var":
                    r, _ = self.path(fr, a)
                    lam = r[1] if r[0] == "lambda" else None
                if lam is not None:
                    self.inline_lambda(fr, lam, [])
            return
        if m in ("lock", "unlock", "try_lock") and o is not None:
            p = self.path(fr, o)
            nm = self.name(p)
            if m == "unlock":
                self.held = [x for x in self.held if x != nm]
            elif p[0][0] not in ("local", "fresh", "none"):
                self.held = self.held + [nm]
            return
        lams = [(i, self.lamb(a)) for i, a in enumerate(args)]
        for a, t in zip(args, list(n.get("pt", [])) + [None] * len(args)):
            t = self.ty(fr, t) if t is not None else {}
            x = a
            while x["k"] in ("cast", "conv", "copy"):
                x = x["e"]
            if (t.get("ref") or t.get("ptr")) and x["k"] in ("var", "mem"):
                self.sub(fr, x)
            else:
                self.expr(fr, a)
        if o is not None:
            if o["k"] not in ("var", "this"):
                self.sub(fr, o)
        if any(b.startswith(q) for q in QUIET):
            return
        f = self.p.fns.get(n.get("u"))
        this = self.path(fr, o) if o is not None else (("none",), [])
        if b in ("std::for_each", "std::transform", "std::generate", "std::sort", "std::stable_sort", "std::fill", "std::copy", "std::copy_n", "std::fill_n", "std::iota", "std::shuffle", "std::reverse"):
            self.algorithm(fr, n, b, args, [l for _, l in lams if l])
            return
        if f is not None and f.d.get("body"):
            if n.get("virt") and f.cls:
                self.unknown += 1
            self.inline(fr, f, n, this, args)
            return
        if n["k"] == "call" and o is not None and not n.get("constm") and m not in CONSTM and "atomic" not in b and not b.startswith(("std::shared_mutex", "std::mutex", "std::condition_variable")):
            if n.get("virt") or n.get("pb") and m.startswith("mutable_") and args:
                if n.get("pb"):
                    return
            rec = (n.get("oc") or "")
            if any(rec.startswith(q) for q in SAFE):
                return
            if not (f is not None and n.get("virt")):
                self.wrote(fr, n, this, "call of %s" % m)
        if n.get("oc") == "seal::Evaluator" and args:
            self.wrote(fr, n, self.path(fr, args[0] if m.endswith("_inplace") else [a for a in args if not (a["k"] == "call" and "Pool" in str(a.get("f")))][-1]), "result of %s" % m)
            return
        for a, t in zip(args, n.get("pt", [])):
            t = self.ty(fr, t)
            s = t.get("s", "")
            if (t.get("ref") and not t.get("rref") or t.get("ptr")) and not t.get("cref") and not t.get("cptr") and not t.get("const") and not s.startswith("const "):
                p = self.path(fr, a)
                if "atomic" in s or "mutex" in s or "Pool" in s or (n.get("c") or "") == "std::function" or any(x in s for x in SAFE):
                    continue
                self.wrote(fr, n, p, "argument of %s" % (m or n.get("c")))
            elif "Span" in (t.get("rec") or "") and t.get("ta") and not self.ty(fr, t["ta"][0]).get("const"):
                p = self.path(fr, a)
                self.wrote(fr, n, p, "argument of %s" % m)

    def algorithm(self, fr, n, b, args, lams):
        """Standard algorithms over begin() + x .. begin() + y."""
        if not args:
            return
        dst = args[2] if b in ("std::transform", "std::copy", "std::copy_n") and len(args) > 2 else args[0]
        r, s = self.path(fr, dst)
        for l in lams:
            src = self.path(fr, args[0])
            if b in ("std::for_each", "std::transform"):
                g = Fr(self.frames + 1, fr.T, None, self.assigned(l["body"]), fr, fr.fn)
                self.frames += 1
                for q in l["ps"]:
                    t = self.ty(fr, q.get("t"))
                    g.env[q["id"]] = src if t.get("ref") or not t else (("local",), [])
                self.body(g, "lambda%d" % id(l), l["body"], self.files[-1])
        if b == "std::for_each":
            return
        self.wrote(fr, n, (r, s), b)


def bodies(p, f):
    lams = {}
    for n in fn_nodes(f):
        if n["k"] == "decl":
            e = n.get("e")
            while e is not None and (e["k"] in ("cast", "conv", "copy") or e["k"] == "ctor" and e.get("c") == "std::function" and e["a"]):
                e = e["e"] if e["k"] != "ctor" else e["a"][0]
            if e is not None and e["k"] == "lambda":
                lams[n["id"]] = e
    for n in fn_nodes(f):
        if n["k"] == "call" and models.strip(n.get("f") or "").rpartition("::")[2] == "parallel_for":
            for a in n["a"][2:]:
                while a is not None and a["k"] in ("cast", "conv", "copy") or a is not None and a["k"] == "ctor" and a.get("a"):
                    a = a["e"] if a["k"] != "ctor" else a["a"][0]
                if a is not None and a["k"] == "lambda":
                    yield n, a
                elif a is not None and a["k"] == "var" and a.get("id") in lams:
                    yield n, lams[a["id"]]


TASK = ("std::async", "enqueue", "std::thread::thread")


def plain(a):
    while a is not None and (a["k"] in ("cast", "conv", "copy") or a["k"] == "ctor" and len([x for x in a.get("a", []) if x]) >= 1 and a.get("c") in ("std::function", "std::reference_wrapper") or a["k"] == "call" and models.strip(a.get("f") or "") in ("std::ref", "std::move", "std::cref")):
        a = a["e"] if a["k"] in ("cast", "conv", "copy") else a["a"][0]
    return a


def tasks(p, f):
    """Tasks started in a loop: (launch, lambda, variables of their own by value, fresh variables, parameters given an own value)."""
    lams = {}
    for n in fn_nodes(f):
        if n["k"] == "decl" and plain(n.get("e")) is not None and plain(n["e"])["k"] == "lambda":
            lams[n["id"]] = plain(n["e"])

    single = set()
    for n in fn_nodes(f):
        # a handle kept in one variable is fetched before the next task starts
        x, y = (n["a"][0], n["a"][1]) if n["k"] == "opcall" and n["op"] == "=" and len(n["a"]) == 2 else (n["x"], n["y"]) if n["k"] == "assign" else (None, None)
        if x is not None and x["k"] in ("var", "mem"):
            single.update(id(z) for z in visit(y))

    def go(n, own, fresh):
        k = n["k"]
        if k in ("for", "while", "do", "rfor"):
            # the tasks of one pass over the innermost loop share what the outer loops declare
            ids = {}
            fr = set()
            if k == "for" and n.get("i") is not None:
                for d in visit(n["i"]):
                    if d["k"] == "decl":
                        ids[d["id"]] = d["n"]
            elif k == "rfor":
                ids[n["v"].get("id")] = n["v"].get("n")
                for x in n["v"].get("bind") or []:
                    ids[x.get("id") if isinstance(x, dict) else x] = x.get("n") if isinstance(x, dict) else None
            for s in n["b"]["s"] if n["b"]["k"] == "block" else [n["b"]]:
                if s["k"] == "decl":
                    fr.add(s["id"])
            for x in [y for y in (n.get("c"), n.get("b"), n.get("n")) if y is not None]:
                yield from go(x, ids, fr)
            return
        b = models.strip(n.get("f") or "")
        if own is not None and id(n) not in single and (k == "call" and (b == "std::async" or b.rpartition("::")[2] == "enqueue")):
            args = [plain(a) for a in n["a"] if a is not None]
            args = [a for a in args if not (a["k"] == "enum" or "launch" in str(a.get("n", "")))]
            if args:
                lam = args[0] if args[0]["k"] == "lambda" else lams.get(args[0].get("id")) if args[0]["k"] == "var" else None
                if lam is not None:
                    mine = set(own)
                    for x in fn_nodes(f):
                        if x["k"] == "decl" and x["id"] in fresh and x.get("e") is not None and any(y["k"] == "var" and y.get("id") in mine for y in visit(x["e"])):
                            mine.add(x["id"])
                    given = {q["id"] for q, a in zip(lam["ps"], args[1:]) if any(y["k"] == "var" and y.get("id") in mine for y in visit(a))}
                    byval = {c["id"] for c in lam.get("caps", []) if "id" in c and not c.get("ref")}
                    byref = {c["id"] for c in lam.get("caps", []) if "id" in c and c.get("ref")}
                    ownv = {i: nm for i, nm in own.items() if i in byval}
                    yield n, lam, ownv, {x for x in fresh} | byval, given, {i: nm for i, nm in own.items() if i in byref}
        if k == "lambda":
            own, fresh = None, set()
        from prog import kids
        for x in kids(n):
            yield from go(x, own, fresh)
    if f.d.get("body"):
        yield from go(f.d["body"], None, set())


def run(cx):
    own = "a range of its own or a lock"
    cx.rule(own)
    cx.rule("a task has its own loop variable")
    cx.rule("one lock for one thing")
    p = cx.prog()
    ntask = count = writes = unknown = 0
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.d.get("body") or not f.file.startswith("psi/") or test(f):
            continue
        work = [("parallel loop", n, lam, None) for n, lam in bodies(p, f) if len(lam["ps"]) >= 2]
        for n, lam, own_, fresh, given, late in tasks(p, f):
            work.append(("task", n, lam, (own_, fresh, given)))
            for i, nm in sorted(late.items()):
                used = any(x["k"] == "var" and x.get("id") == i for x in visit(lam["body"]))
                cx.check(not used, "a task has its own loop variable", "%s: task %s" % (f.f, nm), "the task reads the loop variable %s, which the loop changes while the task runs" % nm, "%s:%s" % (f.file, n.get("l")))
        for kind, n, lam, task in work:
            count += kind != "task"
            ntask += kind == "task"
            b = Body(p, f, lam, cx)
            b.run(n, task)
            unknown += b.unknown
            writes += len(b.out)
            site = "%s: %s" % (f.f, kind)
            bad = {}
            for nm, (k, off), w, lock in b.peeks:
                for q, o in b.offsets.get(nm, []):
                    d = padd(off, o, -1)
                    if q == k and d and set(d) <= {()} and d[()] % k == 0 and not lock:
                        bad[nm] = ("an iteration reads the element another one writes", w, "read")
            for nm, why, w, lock, what in b.out:
                if why is not None and not lock:
                    bad[nm] = (why, w, what)
            for nm, (why, w, what) in sorted(bad.items()):
                cx.fail(own, "%s writes %s" % (site, nm), "%s (%s) is written by all workers: %s, and no lock that they share is held" % (nm, what, why), w, [])
            cx.check(not bad, own, site, "see the writes reported", "%s:%s" % (f.file, n.get("l"))) if not bad else None
            locked = {}
            for nm, why, w, lock, what in b.out:
                if why is not None and lock:
                    locked.setdefault(nm, []).append((set(lock), w))
            for nm, ls in sorted(locked.items()):
                common = set.intersection(*[l for l, _ in ls])
                cx.check(common, "one lock for one thing", "%s: %s" % (site, nm), "%s is written under different locks" % nm, ls[0][1])
                for rn, w, lock, mine in b.reads:
                    if rn == nm and not mine and not set(lock) & common:
                        cx.fail("one lock for one thing", "%s: %s read" % (site, nm), "%s is read without the lock under which other workers write it" % nm, w, [])
                        break
    cx.count("parallel loops", count)
    cx.count("tasks started in loops", ntask)
    cx.count("writes to shared objects", writes)
    cx.count("calls not followed", unknown)
    cx.floor("parallel loops", count, 20)
    cx.floor("writes to shared objects", writes, 30)

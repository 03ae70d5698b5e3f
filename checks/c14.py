"""C14 background tasks are waited for, their failures reach the caller, and nobody waits for a task that failed.

A typestate analysis over the syntax tree of every function that starts a task.  The state of one path is the set of open
things: futures and threads not yet joined, and caught exceptions of tasks not yet rethrown."""
from prog import AnalysisError, Fn, fn_nodes, visit, kids
from models import strip

POOL = ("ThreadPool", "ThreadPoolMgr")
MAXP = 96
FUT = ("std::future", "std::shared_future", "std::__basic_future")
MUT = {"push_back", "emplace_back", "insert", "emplace", "resize", "clear", "assign", "swap", "reset", "erase", "append", "pop", "push", "pop_back", "store"}


def base(n):
    """Strips copies, casts, moves and reference wrappers."""
    while isinstance(n, dict):
        k = n.get("k")
        if k in ("copy", "cast", "conv") and "e" in n:
            n = n["e"]
        elif k == "call" and strip(n.get("f", "")) in ("std::move", "std::forward", "std::ref", "std::cref") and n.get("a"):
            n = n["a"][0]
        elif k == "ctor" and len(n.get("a", [])) == 1 and ("reference_wrapper" in (n.get("c") or "") or (n.get("c") or "") in ("std::function", "std::future", "std::shared_future")
                                                               or n.get("c") == "std::thread" and strip(n["a"][0].get("f", "")) in ("std::move", "std::thread::thread")):
            n = n["a"][0]
        elif k in ("expr",):
            n = n["e"]
        else:
            return n
    return n


def render(n):
    """A text of an expression without positions, equal for equal expressions."""
    if not isinstance(n, dict):
        return repr(n)
    n = base(n)
    k = n.get("k")
    if k == "var":
        return "v%s" % n.get("id")
    if k in ("int", "str", "bool", "flt"):
        return repr(n.get("cv"))
    xs = []
    for key in sorted(n):
        if key in ("l", "t", "k", "pt", "ta", "u", "el", "constm", "pb", "c", "oc"):
            continue
        v = n[key]
        if isinstance(v, dict) and "k" in v:
            xs.append(render(v))
        elif isinstance(v, list):
            xs.append("[" + ",".join(render(x) if isinstance(x, dict) else repr(x) for x in v) + "]")
        else:
            xs.append(repr(v))
    return "%s(%s)" % (k, " ".join(xs))


class Fa:
    """One function that starts tasks."""

    def __init__(self, cx, p, fn, an):
        self.cx, self.p, self.fn, self.an = cx, p, fn, an
        self.alias, self.lam, self.order, self.reft = {}, {}, {}, {}
        self.tasks = {}         # key -> list of task descriptions
        self.site = "%s" % fn.f
        self.cut = False
        c = [0]
        for o in fn.d.get("outer", []):
            self.decl_order(o, (), c)
        self.outside = set(self.order)
        self.decl_order(fn.d.get("body"), (), c)
        self.locked = False

    def ty(self, i):
        return self.fn.T[i] if isinstance(i, int) and i < len(self.fn.T) else {}

    def recs(self, i, d=0):
        t = self.ty(i)
        out = {t.get("rec")}
        if d < 3:
            for a in t.get("ta", []):
                out |= self.recs(a, d + 1)
            if "to" in t:
                out |= self.recs(t["to"], d + 1)
        return out

    def is_fut(self, n):
        r = self.ty(n.get("t")).get("rec") if isinstance(n, dict) else None
        return r in ("std::future", "std::shared_future", "std::thread")

    # ---- declarations --------------------------------------------------------------------------------------------
    def decl_order(self, n, scope, c):
        """Position and scope of every local, and the lambdas bound to locals."""
        if not isinstance(n, dict) or "k" not in n:
            return
        k = n["k"]
        if k == "lambda":
            for x in n.get("caps", []):
                if isinstance(x, dict) and "init" in x:
                    self.decl_order(x["init"], scope, c)
            return
        if k in ("block", "for", "while", "rfor", "do", "if", "try", "catch", "switch"):
            scope = scope + (id(n),)
        if k == "rfor" and isinstance(n.get("v"), dict) and "id" in n["v"]:
            c[0] += 1
            self.order[n["v"]["id"]] = (c[0], scope)
            self.alias[n["v"]["id"]] = n.get("r")
        if k == "decl" and "id" in n:
            for x in kids(n):
                self.decl_order(x, scope, c)
            c[0] += 1
            self.order[n["id"]] = (c[0], scope)
            e = base(n.get("e")) if isinstance(n.get("e"), dict) else None
            if e and e.get("k") == "lambda":
                self.lam[n["id"]] = e
            t = self.ty(n.get("t"))
            if e and (t.get("ref") or t.get("rref")):
                self.alias[n["id"]] = n["e"]
            elif e and e.get("k") == "un" and e.get("op") == "&":
                self.alias[n["id"]] = e["e"]
            return
        for x in kids(n):
            self.decl_order(x, scope, c)

    def key(self, n, d=0):
        """The variable or member (or container of them) an expression denotes."""
        n = base(n)
        if not isinstance(n, dict) or d > 12:
            return None
        k = n.get("k")
        if k in ("init", "ctor") and (k == "init" or "initializer_list" in str(n.get("c"))) or k == "stdinit":
            ks = []
            for x in kids(n):
                kk = self.key(x, d + 1)
                if kk is None:
                    return None
                ks += kk[1] if kk[0] == "set" else [kk]
            return ("set", tuple(ks)) if ks else None
        if k == "var":
            if n.get("id") in self.alias:
                return self.key(self.alias[n["id"]], d + 1)
            return ("v", n.get("id"))
        if k == "mem":
            b = base(n.get("b"))
            if isinstance(b, dict) and b.get("k") == "this":
                return ("m", n.get("n"))
            return self.key(b, d + 1)
        if k == "idx":
            return self.key(n.get("b"), d + 1)
        if k == "opcall" and n.get("op") in ("[]", "*", "->") and n.get("a"):
            return self.key(n["a"][0], d + 1)
        if k == "un" and n.get("op") in ("*", "&"):
            return self.key(n.get("e"), d + 1)
        if k == "call" and n.get("o") is not None and n.get("f", "").split("::")[-1] in ("at", "back", "front", "begin", "get", "end", "value") and self.ty(n.get("t")).get("rec") != "void":
            return self.key(n["o"], d + 1)
        return None

    # ---- task creation --------------------------------------------------------------------------------------------
    def creates(self, n):
        """True for an expression that starts a task and yields its handle."""
        if n.get("k") == "call":
            f = strip(n.get("f", ""))
            if f == "std::async":
                return True
            r = self.ty(n.get("t")).get("rec")
            if r == "std::future" and f not in ("std::move", "std::forward", "std::exchange", "std::swap") and not f.endswith("get_future"):
                if n.get("oc", "").startswith("std::"):
                    return False
                return self.ty(n.get("t")).get("ref") is None
        if n.get("k") == "ctor" and (n.get("c") == "std::thread") and n.get("a") and not self.is_fut(base(n["a"][0])):
            return True
        return False

    def task_lambdas(self, n):
        """Lambda bodies that make up a task, with everything local they call."""
        out, ids, seen = [], [], set()

        def add(l):
            if id(l) in seen:
                return
            seen.add(id(l))
            out.append(l)
            for x in visit(l.get("body")):
                if x.get("k") == "var" and x.get("id") in self.lam:
                    ids.append(x["id"])
                    add(self.lam[x["id"]])
        refs = []
        for a in n.get("a", []):
            wrapped = isinstance(a, dict) and a.get("k") == "call" and strip(a.get("f", "")) in ("std::ref", "std::cref")
            a0 = base(a)
            if not isinstance(a0, dict):
                continue
            if a0.get("k") == "lambda":
                add(a0)
            elif a0.get("k") == "var":
                if a0.get("id") in self.lam:
                    add(self.lam[a0["id"]])
                    if wrapped:
                        refs.append(a0["id"])
                elif wrapped:
                    refs.append(a0["id"])
        return out, refs

    def captured(self, l):
        """Locals a lambda uses by reference, through local lambdas captured by reference or value too."""
        out, seen = set(), set()

        def go(l):
            if id(l) in seen:
                return
            seen.add(id(l))
            for c in l.get("caps", []):
                if "id" not in c:
                    continue
                if c.get("ref"):
                    out.add(c["id"])
                if c["id"] in self.lam:
                    go(self.lam[c["id"]])
        go(l)
        return out

    def writes(self, bodies):
        """Locals outside the bodies that they assign, fill or hand out for writing."""
        own, w = set(), set()
        for l in bodies:
            for x in visit(l.get("body")):
                if x.get("k") == "decl" and "id" in x:
                    own.add(x["id"])
                if x.get("k") == "rfor" and isinstance(x.get("v"), dict):
                    own.add(x["v"].get("id"))
            for q in l.get("ps", []):
                own.add(q.get("id"))
        for l in bodies:
            for x in visit(l.get("body")):
                k, t = x.get("k"), None
                if k == "assign":
                    t = x.get("x")
                elif k == "opcall" and x.get("op") in ("=", "+=", "-=", "|=", "^=", "++", "--"):
                    t = x["a"][0]
                elif k == "un" and x.get("op") in ("++", "--"):
                    t = x.get("e")
                elif k == "call":
                    for i, a in enumerate(x.get("a", [])):
                        pt = self.ty(x["pt"][i]) if i < len(x.get("pt", [])) else {}
                        if isinstance(a, dict) and a.get("k") == "var" and (pt.get("ptr") and not pt.get("cptr") or pt.get("ref") and not pt.get("const")) and strip(x.get("f", "")).startswith("psi::") and str(pt.get("rec") or "std::").startswith("std::") and "_ptr" not in str(pt.get("rec")):
                            kk = self.key(a)
                            if kk and kk[0] == "v":
                                w.add(kk[1])
                        if isinstance(a, dict) and a.get("k") == "un" and a.get("op") == "&" and not pt.get("cptr"):
                            kk = self.key(a["e"])
                            if kk and kk[0] == "v":
                                w.add(kk[1])
                    if x.get("o") is not None and x.get("f", "").split("::")[-1] in MUT | {"fetch_add", "fetch_sub"}:
                        t = x["o"]
                if t is not None:
                    kk = self.key(t)
                    if kk and kk[0] == "v":
                        w.add(kk[1])
        return w - own

    # ---- path-sensitive walk ----------------------------------------------------------------------------------------
    # A path is (open: frozenset of (kind, key, line), conds: frozenset of (text, bool))
    def run(self, entry_members=(), fail=None):
        self.fail = lambda rule, site, msg, l: self.cx.fail(rule, self.site + "|" + site, msg, "%s:%s" % (self.fn.file, l), [self.fn.f])
        self.fail = fail or self.fail
        st = {(frozenset(("maybe", ("m", m), 0) for m in entry_members), frozenset())}
        body = self.fn.d.get("body")
        for i in self.fn.d.get("inits", []):
            st = self.ev(i.get("e"), st)
        outs = self.stmt(body, st)
        for s in outs["n"] | outs["r"]:
            self.at_end(s)
        return outs

    def at_end(self, s):
        for kind, k, l in s[0]:
            if k[0] == "v" and k[1] in self.outside:
                continue
            if kind == "fut" and k[0] != "m":
                self.fail("task joined", "%s" % self.nm(k), "the function can return without get() on the task started here: its failure is lost", l)
            elif kind == "thr" and k[0] != "m":
                self.fail("task joined", "%s" % self.nm(k), "the function can return without joining the thread started here", l)
            elif kind == "exc":
                self.fail("task failure rethrown", "%s" % self.nm(k), "the function can return normally although it caught an exception of a task", l)

    def nm(self, k):
        if k is None:
            return "?"
        if k[0] == "m":
            return k[1]
        for n in fn_nodes(self.fn):
            if n.get("k") == "decl" and n.get("id") == k[1]:
                return n.get("n")
            if n.get("k") == "rfor" and isinstance(n.get("v"), dict) and n["v"].get("id") == k[1]:
                return n["v"].get("n")
        for q in self.fn.d.get("ps", []):
            if q.get("id") == k[1]:
                return q["n"]
        return "?"

    def cap(self, st):
        if len(st) <= MAXP:
            return st
        self.cut = True
        by = {}
        for o, c in st:
            by.setdefault(o, set()).add(c)
        out = {(o, frozenset.intersection(*cs)) for o, cs in by.items()}
        if len(out) > MAXP:
            u = frozenset().union(*(o for o, c in out))
            return {(u, frozenset())}
        return out

    def stmt(self, n, st):
        """Returns paths by how they leave the statement: n(ormal) r(eturn) b(reak) c(ontinue)."""
        R = {"n": set(), "r": set(), "b": set(), "c": set()}
        if not st:
            return R
        st = self.cap(st)
        if n is None:
            R["n"] = st
            return R
        k = n.get("k")
        if k == "block":
            for x in n["s"]:
                o = self.stmt(x, st)
                for q in "rbc":
                    R[q] |= o[q]
                st = o["n"]
                if not st:
                    break
            # what the block declared goes out of scope
            R["n"] = self.leave(n, st)
            return R
        if k == "if":
            if n.get("i"):
                st = self.stmt(n["i"], st)["n"]
            t, f = self.cond(n.get("c"), st)
            for br, s in ((n.get("x"), t), (n.get("y"), f)):
                o = self.stmt(br, s)
                for q in R:
                    R[q] |= o[q]
            return R
        if k in ("for", "while", "do", "rfor"):
            if k == "for" and n.get("i"):
                st = self.stmt(n["i"], st)["n"]
            if k == "rfor":
                st = self.ev(n.get("r"), st)
            inf = k in ("for", "while") and (n.get("c") is None or base(n["c"]).get("cv") in (True, 1))
            if k in ("for", "while") and not inf:
                st = self.ev(n["c"], st)
            once = self.stmt(n.get("b"), st)
            brk = once["b"]
            R["r"] |= once["r"]
            again = once["n"] | once["c"]
            if k == "for" and n.get("n"):
                again = self.ev(n["n"], again)
            # conditions known in the first round need not hold in the next
            nxt = self.cap({(o, frozenset()) for o, c in again})
            two = self.stmt(n.get("b"), nxt)
            R["r"] |= two["r"]
            brk |= two["b"]
            again |= two["n"] | two["c"]
            out = {(o, frozenset()) for o, c in (brk if inf else again | brk)}
            R["n"] = self.polled(n, out) if inf else out
            self.partial(n)
            return R
        if k == "ret":
            e = n.get("e")
            kk = self.key(e) if e else None
            st = self.ev(e, st, "ret")
            if kk:
                st = self.close(st, kk, ("fut", "maybe", "thr"))
            R["r"] = st
            return R
        if k == "break":
            R["b"] = st
            return R
        if k == "continue":
            R["c"] = st
            return R
        if k == "throw":
            self.ev(n.get("e"), st)
            return R
        if k == "try":
            return self.trys(n, st)
        if k == "switch":
            st = self.ev(n.get("c"), st)
            o = self.stmt(n.get("b"), st)
            R["r"], R["c"] = o["r"], o["c"]
            R["n"] = o["n"] | o["b"] | st
            return R
        if k in ("case", "default"):
            for x in kids(n):
                if x.get("k") not in ("int", "enum"):
                    o = self.stmt(x, st)
                    for q in "rbc":
                        R[q] |= o[q]
                    st = o["n"]
            R["n"] = st
            return R
        R["n"] = self.ev(n, st)
        return R

    def leave(self, blk, st):
        return st

    def close(self, st, key, kinds):
        ks = key[1] if key and key[0] == "set" else (key,)
        return {(frozenset(x for x in o if not (x[1] in ks and x[0] in kinds)), c) for o, c in st}

    def polled(self, loop, st):
        """A loop that polls a future with wait_for and fetches its result inside is left with the future done."""
        ks = set()
        for x in visit(loop.get("b")):
            if x.get("k") == "call" and x.get("oc") in FUT and x.get("o") is not None:
                ks.add((x["f"].split("::")[-1], self.key(x["o"])))
        for m, kk in ks:
            if m in ("wait_for", "wait_until") and ("get", kk) in ks:
                st = self.close(st, kk, ("fut", "maybe"))
        return st

    def partial(self, n):
        """A loop that joins only part of the tasks another loop started."""
        if n.get("k") != "for" or not isinstance(n.get("i"), dict):
            return
        st = base(n["i"].get("e")) if n["i"].get("k") == "decl" else None
        start = st.get("cv") if isinstance(st, dict) and st.get("k") == "int" else None
        c = base(n["c"]) if n.get("c") else {}
        less = c.get("k") == "bin" and isinstance(base(c.get("y")), dict) and base(c["y"]).get("k") == "bin" and base(c["y"]).get("op") == "-" and base(base(c["y"]).get("y")).get("k") == "int"
        step = n.get("n") or {}
        step1 = (base(step).get("k") == "un" and base(step).get("op") == "++") or (base(step).get("k") in ("opcall",) and base(step).get("op") == "++")
        iv = n["i"].get("id") if n["i"].get("k") == "decl" else None
        for x in visit(n.get("b")):
            kk = what = None
            if self.creates(x):
                what = "create"
            elif x.get("k") == "call" and x.get("oc") in FUT + ("std::thread",) and x.get("f", "").split("::")[-1] in ("get", "join"):
                b = base(x.get("o"))
                if isinstance(b, dict) and (b.get("k") == "idx" or b.get("k") == "opcall" and b.get("op") == "[]"):
                    i = base(b.get("i") if b.get("k") == "idx" else b["a"][1])
                    if isinstance(i, dict) and i.get("k") == "var" and i.get("id") == iv:
                        what, kk = "join", self.key(b)
            if what == "create":
                self.loops.append(("create", start, render(base(c.get("y"))) if c.get("k") == "bin" else None, less, step1, x.get("l")))
            elif what == "join":
                self.loops.append(("join", start, render(base(c.get("y"))) if c.get("k") == "bin" else None, less, step1, x.get("l")))

    loops = None

    def trys(self, n, st):
        R = {"n": set(), "r": set(), "b": set(), "c": set()}
        o = self.stmt(n.get("b"), st)
        for q in R:
            R[q] |= o[q]
        joined = set()
        for x in visit(n.get("b")):
            if x.get("k") == "call" and x.get("oc") in FUT and x.get("f", "").split("::")[-1] == "get":
                joined.add(self.key(x["o"]))
        hs = n.get("h", [])
        for h in hs:
            s = st
            for kk in joined:
                s = self.close(s, kk, ("fut", "maybe"))
            if joined:
                s = {(x | {("exc", ("h", id(h)), h.get("l") or n.get("l"))}, c) for x, c in s}
            ho = self.stmt(h.get("b") if h.get("k") == "catch" else h, s)
            for q in R:
                done = set()
                for x, c in ho[q]:
                    here = [e for e in x if e[0] == "exc" and e[1] == ("h", id(h))]
                    if here:
                        # an earlier exception is kept already
                        kept = [e for e in x if e[0] == "exc" and e[1][0] != "h" and any(t == "nn " + repr(e[1]) and b for t, b in c)]
                        if kept:
                            x = x - frozenset(here)
                        else:
                            for e in here:
                                self.fail("task failure rethrown", "handler", "the exception of a task is caught and neither rethrown nor kept to be rethrown", h.get("l") or n.get("l"))
                            x = x - frozenset(here)
                    done.add((x, c))
                R[q] |= done
        return R

    # conditions
    def cond(self, c, st):
        c = base(c) if c else None
        if c is None:
            return st, st
        if c.get("k") == "un" and c.get("op") == "!":
            t, f = self.cond(c["e"], st)
            return f, t
        if c.get("k") == "bin" and c.get("op") == "&&":
            t, f = self.cond(c["x"], st)
            t2, f2 = self.cond(c["y"], t)
            return t2, f | f2
        if c.get("k") == "bin" and c.get("op") == "||":
            t, f = self.cond(c["x"], st)
            t2, f2 = self.cond(c["y"], f)
            return t | t2, f2
        st = self.ev(c, st)
        # future.valid(), thread.joinable(), exception_ptr != nullptr
        kk, kind = None, None
        if c.get("k") == "call" and c.get("f", "").split("::")[-1] in ("valid", "joinable") and c.get("o") is not None:
            kk, kind = self.key(c["o"]), "valid"
        elif self.ty(c.get("t")).get("rec") == "std::__exception_ptr::exception_ptr" or (c.get("k") == "var" and "exception_ptr" in str(self.ty(c.get("t")).get("s", ""))):
            kk, kind = self.key(c), "exc"
        elif c.get("k") in ("bin", "opcall") and c.get("op") in ("!=", "=="):
            ab = c.get("a") or [c.get("x"), c.get("y")]
            for a, b in (ab, ab[::-1]):
                if isinstance(base(b), dict) and (base(b).get("k") == "null" or base(b).get("k") == "ctor" and [base(q).get("k") for q in base(b).get("a", [])] in ([], ["null"])) and "exception_ptr" in str(self.ty(base(a).get("t"))):
                    kk, kind = self.key(a), "exc"
            if kind:
                t = {(o, cc | {("nn " + repr(kk), True)}) for o, cc in st}
                f = self.close(st, kk, ("exc",))
                return (t, f) if c["op"] == "!=" else (f, t)
        if kind == "valid" and kk:
            f = self.close(st, kk, ("fut", "maybe", "thr"))
            return st, f
        if kind == "exc" and kk:
            return {(o, cc | {("nn " + repr(kk), True)}) for o, cc in st}, self.close(st, kk, ("exc",))
        txt = render(c)
        ids = {x.get("id") for x in visit(c) if x.get("k") == "var"}
        t, f = set(), set()
        for o, cc in st:
            if (txt, True) in cc:
                t.add((o, cc))
            elif (txt, False) in cc:
                f.add((o, cc))
            else:
                t.add((o, cc | {(txt, True)}))
                f.add((o, cc | {(txt, False)}))
        return t, f

    # expressions
    def ev(self, n, st, how=None, parent=None):
        if n is None or not isinstance(n, dict) or not st:
            return st
        k = n.get("k")
        if k == "lambda":
            return st
        if k == "decl":
            e = n.get("e")
            if e is not None:
                st = self.consume(e, st, ("v", n.get("id")), n)
            return st
        if k == "cond" and n.get("c") is not None:
            t, f = self.cond(n["c"], st)
            xs = [x for x in kids(n) if x is not n["c"]]
            out = set()
            for x, s in zip(xs, (t, f)):
                out |= self.ev(x, s, how)
            return out or st
        if k in ("opcall", "assign") and (n.get("op") in ("=", None) or k == "assign"):
            a = n.get("a") or [n.get("x"), n.get("y")]
            if len(a) == 2 and (k == "assign" or n.get("op") == "="):
                tgt = self.key(a[0])
                if isinstance(a[0], dict) and a[0].get("k") in ("idx", "opcall"):
                    st = self.ev_args(a[0], st)
                r = self.consume(a[1], st, tgt, n, over=not self.indexed(a[0]))
                # assigning forgets what was known about conditions on the target
                if tgt and tgt[0] == "v":
                    r = {(o, frozenset(c for c in cc if "v%s" % tgt[1] not in c[0].replace("(", " ").replace(")", " ").replace("[", " ").replace("]", " ").replace(",", " ").split())) for o, cc in r}
                return r
        if k in ("expr",):
            e = n.get("e")
            b = base(e)
            if isinstance(b, dict) and self.creates(b):
                st = self.ev_args(b, st)
                self.fail("task kept", "line of " + b.get("f", b.get("c", "?")), "a task is started and its handle thrown away: nothing waits for it and its failure is lost", b.get("l"))
                return st
            return self.ev(e, st)
        if k == "ret":
            return self.ev(n.get("e"), st, "ret")
        if k == "call" or k == "opcall":
            return self.call(n, st, how)
        if self.creates(n):
            return self.start(n, st, None, how)
        for x in kids(n):
            st = self.ev(x, st)
        if k == "var":
            self.use(n, st)
        if k == "throw":
            return set()
        return st

    def indexed(self, n):
        n = base(n)
        return isinstance(n, dict) and (n.get("k") == "idx" or n.get("k") in ("opcall",) and n.get("op") in ("[]", "*") or n.get("k") == "un")

    def ev_args(self, n, st):
        for x in kids(n):
            st = self.ev(x, st)
        return st

    def consume(self, e, st, tgt, at, over=True):
        """`e` is stored in tgt."""
        b = base(e)
        if isinstance(b, dict) and self.creates(b):
            if over and tgt is not None:
                for kk in [tgt]:
                    for o, c in st:
                        for kind, k2, l in o:
                            if k2 == kk and kind in ("fut", "maybe", "thr") and not self.inloop_same(at, l):
                                self.fail("task not dropped", self.nm(kk), "a task is stored over another one whose result may not have been fetched", at.get("l"))
            return self.start(b, st, tgt)
        if isinstance(b, dict) and b.get("k") == "cond":
            # either branch may start it
            out = set()
            t, f = self.cond(b["c"], st)
            for x, s in zip([x for x in kids(b) if x is not b["c"]], (t, f)):
                out |= self.consume(x, s, tgt, at, over)
            return out
        src = self.key(e) if isinstance(e, dict) else None
        if src and tgt and src != tgt:
            mv = any(x[1] == src and x[0] in ("fut", "thr", "exc", "maybe") for o, c in st for x in o)
            if mv:
                st = self.ev(e, st) if b.get("k") not in ("var", "mem") else st
                return {(frozenset((kd, tgt if k2 == src and kd in ("fut", "thr", "exc", "maybe") else k2, l) for kd, k2, l in o), c) for o, c in st}
        cur = [x for x in visit(e) if x.get("k") == "call" and x.get("f", "") == "std::current_exception"] if isinstance(e, dict) else []
        if cur and tgt:
            out = set()
            for o, c in st:
                hs = [x for x in o if x[0] == "exc" and x[1][0] == "h"]
                o2 = (o - frozenset(hs)) | frozenset(("exc", tgt, x[2]) for x in hs)
                out.add((o2, c))
            return out
        st = self.ev(e, st)
        # a vector of futures built from moved ones
        if isinstance(b, dict) and b.get("k") in ("init", "ctor") and tgt:
            for x in visit(b):
                kk = self.key(x) if x.get("k") in ("var", "mem") else None
                if kk and any(y[1] == kk and y[0] in ("fut", "thr") for o, c in st for y in o):
                    st = {(frozenset((kd, tgt if k2 == kk else k2, l) for kd, k2, l in o), c) for o, c in st}
        return st

    def inloop_same(self, at, l):
        return False

    def start(self, b, st, tgt, how=None):
        st = self.ev_args(b, st)
        kind = "thr" if b.get("k") == "ctor" else "fut"
        self.an.sites.add((self.fn.file, b.get("l")))
        if how == "ret":
            return st
        if tgt is None:
            self.fail("task kept", "unnamed", "a task is started and its handle is not kept", b.get("l"))
            return st
        bodies, refs = self.task_lambdas(b)
        self.tasks.setdefault(tgt, []).append((b, bodies, refs))
        if kind == "fut" and strip(b.get("f", "")) == "std::async":
            self.lifetime(b, bodies, refs, tgt)
        return {(o | {(kind, tgt, b.get("l"))}, c) for o, c in st}

    def lifetime(self, b, bodies, refs, tgt):
        """Locals a task uses by reference outlive its future, also when an exception unwinds the function."""
        if tgt[0] != "v" or tgt[1] not in self.order:
            return
        pos, sc = self.order[tgt[1]]
        caps = set(refs)
        for l in bodies:
            caps |= self.captured(l)
        for v in sorted(x for x in caps if x in self.order and x != tgt[1]):
            if v in self.alias:
                kk = self.key(self.alias[v])
                if not kk or kk[0] != "v" or kk[1] not in self.order:
                    continue
                v = kk[1]
                if v == tgt[1]:
                    continue
            p2, s2 = self.order[v]
            ok = s2 == sc[:len(s2)] and p2 < pos
            self.cx.check(ok, "task data outlives the task", "%s|%s|%s" % (self.site, self.nm(tgt), self.nm(("v", v))),
                          "the task uses '%s' by reference, which is destroyed before the future '%s' is waited for when an exception unwinds the function" % (self.nm(("v", v)), self.nm(tgt)),
                          "%s:%s" % (self.fn.file, b.get("l")), [self.fn.f])

    def call(self, n, st, how):
        f = strip(n.get("f", ""))
        m = f.split("::")[-1]
        if self.creates(n):
            return self.start(n, st, None, how)
        o = n.get("o")
        a = n.get("a", [])
        # container.push_back(task)
        if m in ("push_back", "emplace_back", "emplace", "push", "insert", "reset") and o is not None and a:
            kk = self.key(o)
            hit = False
            for x in a:
                b = base(x)
                if isinstance(b, dict) and b.get("k") == "new":
                    b = base(b.get("e"))
                if isinstance(b, dict) and (self.creates(b) or "std::thread" in self.recs(self.ty(n.get("t")) and b.get("t")) and self.creates(b)):
                    st = self.start(b, st, kk)
                    hit = True
                elif m == "emplace_back" and "std::thread" in str(self.ty(o.get("t")).get("s", "")) and kk:
                    fake = {"k": "ctor", "c": "std::thread", "a": a, "l": n.get("l")}
                    return self.start(fake, st, kk)
                else:
                    st = self.consume(x, st, kk, n, over=False)
            return st
        if n.get("oc") in FUT and o is not None and m == "get":
            st = self.ev_args_o(n, st)
            return self.close(st, self.key(o), ("fut", "maybe"))
        if n.get("oc") == "std::thread" and o is not None and m in ("join",):
            st = self.ev_args_o(n, st)
            return self.close(st, self.key(o), ("thr", "maybe"))
        if f == "std::rethrow_exception":
            self.ev_args(n, st)
            return set()
        if f == "std::current_exception":
            return st
        if m in ("set_exception",):
            st = {(frozenset(x for x in oo if not (x[0] == "exc" and x[1][0] == "h")), c) for oo, c in st}
            return st
        if f in ("std::move", "std::forward", "std::ref", "std::cref"):
            return self.ev_args(n, st)
        # helpers the handle or the exception is passed to
        tgt = None
        if n.get("k") == "opcall" and n.get("op") == "()" and a and isinstance(base(a[0]), dict) and base(a[0]).get("k") == "var" and base(a[0]).get("id") in self.lam:
            lam = self.lam[base(a[0])["id"]]
            for x in a[1:]:
                st = self.ev(x, st)
            return self.inline_lambda(lam, a[1:], st)
        for x in a:
            st = self.ev(x, st)
        if o is not None:
            st = self.ev(o, st)
        if m == "for_each" and len(a) == 3:
            kk = self.key(a[0])
            lam = base(a[2])
            lam = self.lam.get(lam.get("id")) if isinstance(lam, dict) and lam.get("k") == "var" else lam
            if kk and isinstance(lam, dict) and lam.get("k") == "lambda":
                if lam.get("ps"):
                    self.alias[lam["ps"][0]["id"]] = {"k": "var", "id": kk[1]} if kk[0] == "v" else {"k": "mem", "n": kk[1], "b": {"k": "this"}}
                return self.inline_lambda(lam, [], st)
        callee = self.an.lookup(n)
        if callee is not None and any(x[0] in ("fut", "thr", "exc", "maybe") for oo, c in st for x in oo):
            for i, x in enumerate(a):
                kk = self.key(x) if isinstance(x, dict) else None
                if kk and any(y[1] == kk for oo, c in st for y in oo):
                    eff = self.an.param(callee, i)
                    if eff:
                        st = self.close(st, kk, eff)
            own = isinstance(base(o), dict) and base(o).get("k") == "this" if o is not None else False
            if own:
                for kind, mem in self.an.members_joined(callee):
                    st = self.close(st, ("m", mem), ("fut", "maybe", "thr"))
        if n.get("noret"):
            return set()
        return st

    def ev_args_o(self, n, st):
        for x in n.get("a", []):
            st = self.ev(x, st)
        o = n.get("o")
        if isinstance(base(o), dict) and base(o).get("k") not in ("var", "mem"):
            st = self.ev_args(base(o), st)
        return st

    def inline_lambda(self, lam, args, st):
        if getattr(self, "_dep", 0) > 4:
            return st
        self._dep = getattr(self, "_dep", 0) + 1
        for q, x in zip(lam.get("ps", []), args):
            if isinstance(x, dict) and self.key(x) and q.get("id") is not None:
                self.alias[q["id"]] = x
            b = base(x)
            if isinstance(b, dict) and b.get("k") == "lambda":
                self.lam[q["id"]] = b
        o = self.stmt(lam.get("body"), st)
        self._dep -= 1
        return o["n"] | o["r"]

    def use(self, n, st):
        """Reads of a variable a running task still writes."""
        v = n.get("id")
        for o, c in st:
            for kind, kk, l in o:
                if kind not in ("fut", "thr"):
                    continue
                for b, bodies, refs in self.tasks.get(kk, []):
                    if b.get("l") != l:
                        continue
                    w = self.an.wcache.get(id(b))
                    if w is None:
                        w = self.an.wcache[id(b)] = self.writes(bodies)
                    if v in w and not self.shared(v):
                        self.fail("result used after the task", "%s|%s" % (self.nm(kk), self.nm(("v", v))),
                                  "'%s' is used while the task that writes it may still be running" % self.nm(("v", v)), n.get("l"))

    def shared(self, v):
        """Objects made to be used from several threads."""
        for n in fn_nodes(self.fn):
            if n.get("k") == "decl" and n.get("id") == v:
                s = str(self.ty(n.get("t")).get("s", ""))
                return "atomic" in s or "mutex" in s or "condition_variable" in s or "promise" in s
        return False


class An:
    def __init__(self, cx, p):
        self.cx, self.p = cx, p
        self.sites, self.wcache, self.pc = set(), {}, {}
        self.byu = {f.u: f for f in p.fns.values()}

    def lookup(self, n):
        return self.byu.get(n.get("u"))

    def param(self, fn, i):
        """Kinds of obligation a function discharges on its i-th argument on every normal return."""
        key = (fn.u, i)
        if key in self.pc:
            return self.pc[key]
        self.pc[key] = ()
        ps = fn.d.get("ps", [])
        if i >= len(ps):
            return ()
        fa = Fa(Quiet(), self.p, fn, self)
        fa.fail = lambda *a: None
        fa.loops = []
        me = ("v", ps[i].get("id"))
        st = {(frozenset((k, me, 0) for k in ("fut", "thr", "exc")), frozenset())}
        o = fa.stmt(fn.d.get("body"), st)
        left = {x[0] for s in o["n"] | o["r"] for x in s[0] if x[1] == me}
        self.pc[key] = tuple(k for k in ("fut", "thr", "exc") if k not in left)
        return self.pc[key]

    def members_joined(self, fn):
        key = (fn.u, "this")
        if key in self.pc:
            return self.pc[key]
        self.pc[key] = ()
        out = []
        mem = {n["n"] for n in fn_nodes(fn) if n.get("k") == "mem" and isinstance(base(n.get("b")), dict) and base(n["b"]).get("k") == "this"}
        fa = Fa(Quiet(), self.p, fn, self)
        fa.fail = lambda *a: None
        fa.loops = []
        st = {(frozenset(("maybe", ("m", m), 0) for m in mem), frozenset())}
        o = fa.stmt(fn.d.get("body"), st)
        left = {x[1][1] for s in o["n"] | o["r"] for x in s[0] if x[0] in ("maybe",)}
        self.pc[key] = tuple(("maybe", m) for m in mem if m not in left)
        return self.pc[key]


class Quiet:
    def check(self, *a):
        pass
    fail = ok = check


def handlers_in_tasks(cx, fa):
    """Handlers inside a task body let the failure out."""
    seen = set()
    for kk, ts in fa.tasks.items():
        for b, bodies, refs in ts:
            for l in bodies:
                for x in visit(l.get("body")):
                    if x.get("k") != "try" or id(x) in seen:
                        continue
                    seen.add(id(x))
                    for h in x.get("h", []):
                        kept = any(y.get("k") == "call" and y.get("f") == "std::current_exception" for y in visit(h)) \
                            and any(y.get("k") == "call" and strip(y.get("f", "")) in ("std::rethrow_exception",) or y.get("k") == "call" and y.get("f", "").endswith("set_exception") for y in fn_nodes(fa.fn))
                        sub = Fa(Quiet(), fa.p, fa.fn, fa.an)
                        sub.fail = lambda *a: None
                        sub.loops = []
                        o = sub.stmt(h.get("b") if h.get("k") == "catch" else h, {(frozenset(), frozenset())})
                        lost = bool(o["n"] | o["r"] | o["b"] | o["c"])
                        cx.check(kept or not lost, "task failure rethrown", "%s|%s|task handler" % (fa.site, fa.nm(kk)),
                                 "a failure inside the task is caught and not rethrown: the caller's get() succeeds", "%s:%s" % (fa.fn.file, h.get("l") or x.get("l")), [fa.fn.f])


def waits(cx, fa):
    """A wait for something a task does ends when that task fails."""
    p, n_ob = fa.p, 0
    allb = [(kk, b, bodies) for kk, ts in fa.tasks.items() for b, bodies, refs in ts if b.get("k") == "call"]
    if not allb:
        return 0

    def reads(n):
        own, out = set(), set()
        for x in visit(n):
            if x.get("k") == "var":
                out.add(x["id"])
                if x["id"] in fa.lam:
                    out |= reads(fa.lam[x["id"]].get("body"))
        return out

    def signals(bodies, R, spin_body):
        for l in bodies:
            for x in visit(l.get("body")):
                if x.get("k") == "try":
                    for h in x.get("h", []):
                        if fa.writes([{"body": h, "ps": []}]) & R:
                            return True
        return False

    locals_ = set(fa.order)
    waitsites = []
    for x in fn_nodes(fa.fn):
        if x.get("k") == "call" and x.get("oc", "").startswith("std::condition_variable") and x.get("f", "").split("::")[-1] == "wait":
            if len(x.get("a", [])) > 1:
                q = base(x["a"][1])
                body = fa.lam[q["id"]].get("body") if q.get("k") == "var" and q.get("id") in fa.lam else q.get("body")
                waitsites.append((x, reads(body), None, "wait"))
    loops = [x for x in fn_nodes(fa.fn) if x.get("k") in ("while", "do", "for")]
    for x in loops:
        cvw = [y for y in visit(x.get("b")) if y.get("k") == "call" and y.get("oc", "").startswith("std::condition_variable") and y.get("f", "").split("::")[-1] in ("wait", "wait_for") and len(y.get("a", [])) < 3]
        c = x.get("c")
        if c is None:
            continue
        R = reads(c)
        # through locals refreshed in the loop from an atomic
        for y in visit(x.get("b")):
            t = e = None
            if y.get("k") == "assign":
                t, e = y.get("x"), y.get("y")
            elif y.get("k") == "opcall" and y.get("op") == "=":
                t, e = y["a"][0], y["a"][1]
            if t is not None and isinstance(base(t), dict) and base(t).get("k") == "var" and base(t)["id"] in R:
                R = R | reads(e)
        waitsites.append((x, R & locals_, x, "spin"))
    for x, R, loop, how in waitsites:
        for kk, b, bodies in allb:
            own = fa.writes(bodies)
            inside = any(y is x for l in bodies for y in visit(l.get("body")))
            # what the waiting task itself also provides does not make it wait for itself
            if inside or not (own & R):
                continue
            shared = [v for v in own & R if how == "wait" or fa.shared(v)]
            if not shared:
                continue
            n_ob += 1
            ok = signals(bodies, R, loop)
            if not ok and loop is not None:
                ok = any(y.get("k") == "call" and y.get("oc") in FUT and fa.key(y.get("o")) == kk and y.get("f", "").split("::")[-1] in ("wait_for", "get", "wait_until")
                         for y in visit(loop))
            cx.check(ok, "waits end when the task fails", "%s|%s" % (fa.site, fa.nm(kk)),
                     "this waits for what the task '%s' does, and goes on waiting for ever when that task fails" % fa.nm(kk), "%s:%s" % (fa.fn.file, x.get("l")), [fa.fn.f])
    return n_ob


def destructors(cx, p, an, member_tasks):
    """A task kept in a member is waited for before the members it uses are destroyed, and the destructor does not throw."""
    n = 0
    for (cls, mem), bodies in sorted(member_tasks.items()):
        C = p.classes.get(cls)
        if not C:
            continue
        dt = [f for f in p.fns.values() if f.cls == cls and "::~" in f.f]
        waited = False
        ft = [f for f in C["fields"] if f["n"] == mem]
        thr = bool(ft) and "std::thread" in str(C["_T"][ft[0]["t"]].get("s", ""))
        for f in dt:
            body, more = list(fn_nodes(f)), [f.u]
            for x in body:
                g = an.lookup(x) if x.get("k") == "call" and x.get("oc") == cls else None
                if g is not None and g.u not in more:
                    more.append(g.u)
                    body.extend(fn_nodes(g))
            ka = Fa(Quiet(), p, f, an)
            for x in body:
                if x.get("k") == "call" and x.get("o") is not None and ka.key(x["o"]) == ("m", mem):
                    m = x.get("f", "").split("::")[-1]
                    if m in ("wait", "get", "join") and not (thr and m != "join"):
                        waited = True
                    if m == "get":
                        inside = any(t.get("k") == "try" and any(y is x for y in visit(t.get("b"))) for t in fn_nodes(f))
                        cx.check(inside, "destructor does not rethrow", "%s|%s" % (cls, mem), "the destructor fetches the result of a task, which ends the program when the task failed",
                                 "%s:%s" % (f.file, x.get("l")), [f.f])
        order = [x["n"] for x in C["fields"]]
        used, seen = set(), set()

        def gather(nodes):
            for x in nodes:
                if x.get("k") == "mem" and isinstance(base(x.get("b")), dict) and base(x["b"]).get("k") == "this":
                    used.add(x["n"])
                if x.get("k") == "call" and x.get("oc") == cls and x.get("u") not in seen:
                    seen.add(x.get("u"))
                    g = an.lookup(x)
                    if g is not None:
                        gather(fn_nodes(g))
        for l in bodies:
            gather(visit(l.get("body")))
        later = [u for u in used if u in order and mem in order and order.index(u) > order.index(mem)]
        n += 1
        if thr:
            cx.check(waited, "task joined", "%s|%s" % (cls, mem), "the destructor does not join the thread kept in '%s'" % mem, "%s" % (dt[0].file if dt else cls), [cls])
        cx.check(waited or not later, "task data outlives the task", "%s|%s" % (cls, mem),
                 "the task kept in '%s' uses %s, destroyed before the task is waited for" % (mem, ", ".join(sorted(later))), "%s" % (dt[0].file if dt else cls), [cls])
    return n


def direct(n):
    """Nodes of a body without those of the lambdas in it, and these lambdas."""
    out, lams, todo = [], [], [n]
    while todo:
        x = todo.pop()
        if not isinstance(x, dict):
            continue
        if x.get("k") == "lambda":
            lams.append(x)
            todo += [c["init"] for c in x.get("caps", []) if isinstance(c, dict) and "init" in c]
            continue
        out.append(x)
        todo += list(kids(x))
    return out, lams


def units(fn):
    """The function and every lambda in it, as functions of their own."""
    yield fn
    todo = [(l, [fn.d.get("body")]) for l in direct(fn.d.get("body"))[1]]
    for i in fn.d.get("inits", []):
        todo += [(l, []) for l in direct(i.get("e"))[1]]
    while todo:
        l, outer = todo.pop()
        u = Fn.__new__(Fn)
        for a in ("T", "tu", "f", "file", "cls", "name"):
            setattr(u, a, getattr(fn, a))
        u.d = {"body": l.get("body"), "ps": l.get("ps", []), "f": fn.f, "u": l.get("u") or fn.u, "outer": outer, "acc": "pub"}
        u.u, u.line = u.d["u"], l.get("l")
        yield u
        todo += [(x, outer + [l.get("body")]) for x in direct(l.get("body"))[1]]


def run(cx):
    p = cx.prog()
    cx.rule("every started task is kept and its result fetched on every normal path, exceptions caught around a fetch or inside a task are rethrown, data a task uses by reference outlives its future on "
            "exceptional paths too, a waiting thread is released when the task it waits for fails")
    an = An(cx, p)
    seen, fas = set(), []
    for fn in sorted(p.fns.values(), key=lambda f: (f.file, f.line, f.u)):
        if not fn.file.startswith("psi/") or fn.d.get("body") is None:
            continue
        if not any(n.get("k") in ("call", "ctor") and (n.get("c") == "std::thread" or isinstance(n.get("t"), int) and fn.T[n["t"]].get("rec") == "std::future") for n in fn_nodes(fn)):
            continue
        for u in units(fn):
            one(cx, p, u, an, seen, fas)
    rest(cx, p, an, fas)


def one(cx, p, fn, an, seen, fas):
        fa = None
        for n in direct(fn.d.get("body"))[0] + [x for i in fn.d.get("inits", []) for x in direct(i.get("e"))[0]]:
            if n.get("k") in ("call", "ctor") and (n.get("f", "").startswith("std::async") or n.get("k") == "ctor" and n.get("c") == "std::thread" and n.get("a") or
                                                  n.get("k") == "call" and isinstance(n.get("t"), int) and fn.T[n["t"]].get("rec") == "std::future"):
                fa = fa or Fa(cx, p, fn, an)
                if fa.creates(n):
                    break
        else:
            return
        if (fn.file, fn.line) in seen:
            return
        seen.add((fn.file, fn.line))
        fas.append(fa)


def rest(cx, p, an, fas):
    member_tasks, nw = {}, 0
    for fa in fas:
        fn = fa.fn
        fa.loops = []
        # futures kept in members may hold a task when a method that can run more than once is entered
        ctor_only = bool(fn.d.get("ctor"))
        mems = set()
        if fn.cls and not ctor_only:
            mems = {f["n"] for f in p.classes.get(fn.cls, {}).get("fields", []) if p.classes[fn.cls]["_T"][f["t"]].get("rec") == "std::future"}
            callers = [g for g in p.fns.values() if g.cls == fn.cls and g.u != fn.u and any(x.get("k") == "call" and x.get("u") == fn.u for x in fn_nodes(g))]
            others = any(x.get("k") == "call" and x.get("u") == fn.u for g in p.fns.values() if g.cls != fn.cls for x in fn_nodes(g)) if fn.d.get("acc") != "priv" else False
            probe = Fa(Quiet(), p, fn, an)
            probe.loops, bad = [], []
            probe.run(mems, lambda rule, *a: bad.append(rule))
            if "task not dropped" in bad and callers and not others and fn.d.get("acc") in ("priv", "prot"):
                # judged where it is called: the caller must have fetched the previous task
                for g in callers:
                    if constructing(p, g):
                        continue
                    ga = Fa(cx, p, g, an)
                    ga.loops = []
                    ok = fetched_before(ga, fn, mems, an)
                    cx.check(ok, "task not dropped", "%s|%s" % (g.f, fn.f), "the next task is started although the previous one may not have been fetched", "%s:%s" % (g.file, g.line), [g.f])
                mems = set()
        fa.run(mems)
        for kk, ts in fa.tasks.items():
            if kk[0] == "m" and fn.cls:
                for b, bodies, refs in ts:
                    member_tasks.setdefault((fn.cls, kk[1]), []).extend(bodies)
        handlers_in_tasks(cx, fa)
        nw += waits(cx, fa)
        crs = [x for x in fa.loops if x[0] == "create"]
        for j in [x for x in fa.loops if x[0] == "join"]:
            for c in crs:
                bad = (isinstance(j[1], int) and isinstance(c[1], int) and j[1] > c[1]) or (j[3] and not c[3] and not (j[2] == c[2])) or (c[4] and not j[4])
                cx.check(not bad, "task joined", fa.site + "|loop", "the loop joins only part of the tasks started", "%s:%s" % (fn.file, j[5]), [fn.f])
        cx.ok("task typestate", fa.site)
    nd = destructors(cx, p, an, member_tasks)
    cx.floor("functions that start tasks", len(fas), 24)
    cx.floor("task start sites", len(an.sites), 38)
    cx.cov["waits on tasks"] = nw
    cx.floor("futures kept in members", nd, 3)


def constructing(p, g, d=0):
    """A constructor, or a private method only constructors call."""
    if g.d.get("ctor"):
        return True
    cs = [h for h in p.fns.values() if any(x.get("k") == "call" and x.get("u") == g.u for x in fn_nodes(h))]
    return d < 3 and g.d.get("acc") == "priv" and bool(cs) and all(h.cls == g.cls and constructing(p, h, d + 1) for h in cs)


def fetched_before(ga, fn, mems, an):
    """On every path of the caller, the member futures were fetched before `fn` is called."""
    res = []
    orig = ga.call

    def call(n, st, how):
        if n.get("k") == "call" and n.get("u") == fn.u:
            for o, c in st:
                for kind, kk, l in o:
                    if kind in ("maybe",) and kk[0] == "m" and kk[1] in mems:
                        res.append(kk)
        return orig(n, st, how)
    ga.call = call
    ga.fail = lambda *a: None
    st = {(frozenset(("maybe", ("m", m), 0) for m in mems), frozenset())}
    ga.stmt(ga.fn.d.get("body"), st)
    return not res

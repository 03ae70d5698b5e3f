"""Interprocedural abstract interpreter over the extracted program.

Domain: value numbering (hash-consed terms), constants, labels (taint), points-to sets and closures, kept in a
store keyed by access paths; branch facts (term -> bool); rule facts (finite set); held locks.
States are kept apart while they are few or their rule facts differ, and joined otherwise.  Loops are analysed from
a havocked head state reached by iteration.  Nothing of the repository is executed."""
from collections import namedtuple
from prog import AnalysisError, kids, visit

AV = namedtuple("AV", "t lab ref clo")   # term id, labels, points-to locations, closures
RV = namedtuple("RV", "av loc")          # value + location of a glvalue / object contents (or None)
E0 = frozenset()
SMART = ("std::shared_ptr", "std::unique_ptr", "std::weak_ptr")
VIEW = ("std::basic_string_view", "absl::Span", "std::span", "yacl::ByteContainerView", "absl::string_view", "gsl::span",
        "std::reference_wrapper", "absl::lts_20220623::Span")
LOCKT = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock", "seal::util::ReaderLock", "seal::util::WriterLock", "absl::MutexLock", "absl::ReaderMutexLock")
FUT = ("std::future", "std::shared_future")


class Terms:
    def __init__(self):
        self.ids, self.tab, self.depth = {}, [], []
        self.n = 0

    def mk(self, *k):
        i = self.ids.get(k)
        if i is None:
            i = len(self.tab)
            d = 0
            if k[0] not in ("c", "s"):
                for x in k[1:]:
                    if type(x) is int and x < i:
                        d = max(d, self.depth[x] + 1)
                    elif type(x) is tuple:
                        for y in x:
                            if type(y) is int and y < i:
                                d = max(d, self.depth[y] + 1)
            if d > 14:
                return self.fresh()
            self.ids[k] = i
            self.tab.append(k)
            self.depth.append(d)
        return i

    def c(self, v):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, float):
            v = "f%r" % v
        return self.mk("c", "i" if isinstance(v, int) else "s", v)

    def fresh(self, why=None):
        self.n += 1
        k = ("s", self.n, why)
        i = len(self.tab)
        self.ids[k] = i
        self.tab.append(k)
        self.depth.append(0)
        return i

    def const(self, t):
        k = self.tab[t]
        return (True, k[2]) if k[0] == "c" else (False, None)

    def sub(self, t, seen=None):
        seen = set() if seen is None else seen
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            k = self.tab[x]
            if k[0] in ("c", "s"):
                continue
            for y in k[1:]:
                if type(y) is int:
                    st.append(y)
                elif type(y) is tuple:
                    st.extend(z for z in y if type(z) is int)
        return seen

    def show(self, t, d=4):
        k = self.tab[t]
        if k[0] == "c":
            return repr(k[2])
        if k[0] == "s":
            return "?" + str(k[2] or k[1])
        if d == 0:
            return "…"
        f = lambda x: self.show(x, d - 1) if type(x) is int and 0 <= x < len(self.tab) else ("(" + ",".join(f(y) for y in x) + ")" if type(x) is tuple else str(x))
        return k[0] + "(" + ",".join(f(x) for x in k[1:]) + ")"


class Clo:
    __slots__ = ("node", "T", "vmap", "this", "tu", "fn", "bound", "_h")

    def __init__(self, node, T, vmap, this, tu, fn=None, bound=()):
        self.node, self.T, self.vmap, self.this, self.tu, self.fn, self.bound = node, T, vmap, this, tu, fn, bound
        self._h = hash((id(node), fn, this, tuple(sorted(vmap.items())) if vmap else (), len(bound)))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Clo) and self._h == o._h and self.node is o.node and self.fn == o.fn and self.vmap == o.vmap and self.this == o.this


class St:
    __slots__ = ("store", "conds", "facts", "locks")

    def __init__(self, store=None, conds=None, facts=E0, locks=()):
        self.store = store if store is not None else {}
        self.conds = conds if conds is not None else {}
        self.facts, self.locks = facts, locks

    def copy(self):
        return St(dict(self.store), dict(self.conds), self.facts, self.locks)

    def add(self, *fs):
        self.facts = self.facts | frozenset(fs)

    def drop(self, pred):
        self.facts = frozenset(f for f in self.facts if not pred(f))


class Frame:
    __slots__ = ("id", "fn", "T", "this", "vmap", "up", "callsite", "tu", "retref", "depth", "key", "owned")

    def __init__(self, id, fn, T, this, up, callsite, tu, key):
        self.id, self.fn, self.T, self.this, self.up, self.callsite, self.tu, self.key = id, fn, T, this, up, callsite, tu, key
        self.vmap = {}
        self.depth = up.depth + 1 if up else 0
        self.retref = False


class Budget(AnalysisError):
    pass


class Rule:
    """Hooks a property installs. All optional."""
    inline_max = 14
    K = 6

    def call(self, I, st, n, f, obj, args):
        return None

    def no_inline(self, I, fn):
        return False

    def ret(self, I, st, fn, rv):
        pass

    def write(self, I, st, loc, rv, n):
        pass

    def load(self, I, st, loc, n):
        pass

    def lock(self, I, st, m, n):
        pass

    def branch(self, I, st, n, taken):
        pass

    def enter(self, I, st, fn, obj, args):
        pass

    def uncaught(self, I, st):
        pass

    def delete(self, I, st, n, v):
        pass

    def loop_break(self, I, st, n):
        """st leaves a loop from inside its body."""

    def iter_begin(self, I, st, n):
        pass

    def iter_end(self, I, st, n):
        """st reaches the end of one iteration of loop n."""


class Interp:
    def __init__(self, prog, rule=None, budget=1500000):
        self.P, self.R = prog, rule or Rule()
        self.T = Terms()
        self.frames = {}
        self.fr = None
        self.sinks = [[]]
        self.intry = 0
        self.dry = 0
        self.steps, self.budget = 0, budget
        self.stack = []
        self.visited_fns, self.visited_calls = set(), set()
        self.unknown_calls = {}
        self.tmpn = 0
        self.ctorcache = {}
        self.loopdepth = 0
        self.loops = []
        self.lockkind = {}

    # ---- values -------------------------------------------------------------------------------------------------
    def cst(self, v, lab=E0):
        return AV(self.T.c(v), lab, (), ())

    def fresh(self, why=None, lab=E0):
        return AV(self.T.fresh(why), lab, (), ())

    def isc(self, av):
        return self.T.const(av.t)

    def where(self, n=None):
        f = self.fr
        fn = f.fn
        l = (n or {}).get("l", fn.line if fn else 0)
        s = "%s:%s" % (fn.file if fn else f.tu, l)
        return s

    def chain(self):
        out, f = [], self.fr
        while f:
            out.append("%s" % (f.fn.f if f.fn else "lambda"))
            f = f.up
        return " <- ".join(out[:8])

    def ty(self, i, fr=None):
        if i is None or i < 0:
            return {}
        return (fr or self.fr).T[i]

    # ---- store --------------------------------------------------------------------------------------------------
    def rd(self, st, loc):
        av = st.store.get(loc)
        if av is not None:
            return av
        n = len(loc) - 1
        rel = ()
        while n > 0:
            a = st.store.get(loc[:n])
            rel = loc[n:]
            if a is not None:
                return AV(self.T.mk(".", a.t, rel), a.lab, (), ())
            n -= 1
        return AV(self.T.mk("r", loc[0], loc[1:]), self.rootlab(loc), (), ())

    def rootlab(self, loc):
        return E0

    def subs(self, st, loc):
        n = len(loc)
        return [(k, v) for k, v in st.store.items() if len(k) > n and k[:n] == loc]

    def deep(self, st, rv, depth=3):
        """All labels reachable from a value: its own, its sub-objects', and one pointee level."""
        lab = rv.av.lab
        seen = set()
        todo = [(rv.loc, depth)] if rv.loc is not None else []
        todo += [(l, depth - 1) for l in rv.av.ref]
        while todo:
            loc, d = todo.pop()
            if loc in seen:
                continue
            seen.add(loc)
            a = self.rd(st, loc)
            lab = lab | a.lab
            if d > 0:
                for r in a.ref:
                    todo.append((r, d - 1))
            for k, v in self.subs(st, loc):
                lab = lab | v.lab
                if d > 0:
                    for r in v.ref:
                        todo.append((r, d - 1))
        for c in rv.av.clo:
            for i, l in (c.vmap or {}).items():
                if i in c.capset():
                    todo.append(l)
        return lab

    def wr(self, st, loc, rv, n=None, weak=False):
        """Assign rv (deep copy) to loc; summary elements are updated weakly."""
        if "[]" in loc[1:]:
            weak = True
        subs = []
        if rv.loc is not None and rv.loc != loc:
            m = len(rv.loc)
            subs = [(k[m:], v) for k, v in self.subs(st, rv.loc)]
        av = rv.av
        if weak:
            old = self.rd(st, loc)
            if loc in st.store or old.lab:
                ref = tuple(dict.fromkeys(old.ref + av.ref))[:6]
                clo = tuple(dict.fromkeys(old.clo + av.clo))[:6]
                t = av.t if (loc not in st.store) else (old.t if old.t == av.t else self.T.fresh("weak"))
                av = AV(t, old.lab | av.lab, ref, clo)
            st.store[loc] = av
            for k, v in subs:
                kk = loc + k
                o = st.store.get(kk)
                if o is not None:
                    v = AV(o.t if o.t == v.t else self.T.fresh("weak"), o.lab | v.lab, tuple(dict.fromkeys(o.ref + v.ref))[:6], tuple(dict.fromkeys(o.clo + v.clo))[:6])
                st.store[kk] = v
        else:
            if rv.loc == loc:
                st.store[loc] = av
            else:
                n0 = len(loc)
                for k in [k for k in st.store if len(k) > n0 and k[:n0] == loc]:
                    del st.store[k]
                st.store[loc] = av
                for k, v in subs:
                    st.store[loc + k] = v
        # Mutating a part changes the value of the whole.
        i = len(loc) - 1
        while i > 0:
            p = loc[:i]
            a = st.store.get(p)
            if a is not None and not a.ref:
                st.store[p] = a  # the parent keeps its identity; size-like terms are invalidated by touch()
            i -= 1
        self.R.write(self, st, loc, rv, n)

    def touch(self, st, loc, lab=E0, why="mut"):
        """loc's contents changed in an unknown way: fresh value, sub-entries forgotten (labels kept)."""
        a = self.rd(st, loc)
        l = a.lab | lab
        n0 = len(loc)
        for k in [k for k in st.store if len(k) > n0 and k[:n0] == loc]:
            v = st.store[k]
            if k[-1] == "@cls":
                continue
            if v.ref or v.clo:
                if lab - v.lab:
                    st.store[k] = AV(v.t, v.lab | lab, v.ref, v.clo)
                continue
            l = l | v.lab
            del st.store[k]
        st.store[loc] = AV(self.T.fresh(why), l, a.ref, a.clo)

    def bump(self, st, loc, lab=E0):
        """Container mutation: new identity for the container value, elements kept."""
        a = self.rd(st, loc)
        st.store[loc] = AV(self.T.fresh("bump"), a.lab | lab, a.ref, a.clo)
        st.store.pop(loc + ("@size",), None)

    def deref(self, st, rv):
        """Locations a pointer-like value may refer to."""
        if rv.av.ref:
            return list(rv.av.ref)
        return [(("d", rv.av.t),)]

    def tmp(self, why="t"):
        # stable per (frame, node) would alias across uses; uniqueness is enough because temps die with the frame
        self.tmpn += 1
        return (("t", self.fr.id if self.fr else 0, self.tmpn),)

    # ---- joining ------------------------------------------------------------------------------------------------
    def join2(self, a, b):
        s = {}
        A, B = a.store, b.store
        for k in A.keys() | B.keys():
            x, y = A.get(k), B.get(k)
            if x is y:
                s[k] = x
                continue
            if x is None:
                if k[0][0] in ("v", "t", "c") and not any(k[:i] in A for i in range(1, len(k))):
                    s[k] = y
                    continue
                x = self.rd(a, k)
            elif y is None:
                if k[0][0] in ("v", "t", "c") and not any(k[:i] in B for i in range(1, len(k))):
                    s[k] = x
                    continue
                y = self.rd(b, k)
            if x == y:
                s[k] = x
                continue
            t = x.t if x.t == y.t else self.T.mk("phi", min(x.t, y.t), max(x.t, y.t))
            s[k] = AV(t, x.lab | y.lab, tuple(dict.fromkeys(x.ref + y.ref))[:6], tuple(dict.fromkeys(x.clo + y.clo))[:6])
        c = {k: v for k, v in a.conds.items() if b.conds.get(k) == v}
        lk = tuple(x for x in a.locks if x in b.locks)
        return St(s, c, a.facts, lk)

    def merge(self, sts, K=None):
        K = self.R.K if K is None else K
        if len(sts) <= 1:
            return sts
        groups = {}
        for s in sts:
            groups.setdefault((s.facts, s.locks), []).append(s)
        if len(sts) <= K:
            # still drop exact duplicates
            return sts
        out = []
        for g in groups.values():
            r = g[0]
            for s in g[1:]:
                r = self.join2(r, s)
            out.append(r)
        if len(out) > 48:
            raise Budget("too many abstract states (%d) at %s" % (len(out), self.chain()))
        return out

    def merge_rv(self, outs, K=None):
        """Join [(st, rv)] lists, keeping values apart while few."""
        K = self.R.K if K is None else K
        if len(outs) <= K:
            return outs
        groups = {}
        for s, r in outs:
            isc, c = self.isc(r.av)
            groups.setdefault((s.facts, s.locks, c if isc else None, r.av.ref[:1] if r.av.ref else None), []).append((s, r))
        if len(groups) > K * 3:
            groups2 = {}
            for (f, l, c, rf), v in groups.items():
                groups2.setdefault((f, l), []).extend(v)
            groups = groups2
        out = []
        for g in groups.values():
            s, r = g[0]
            for s2, r2 in g[1:]:
                # move both values to a common temporary so that the join covers them
                if r.loc is not None or r2.loc is not None:
                    tl = self.tmp("m")
                    s, s2 = s.copy(), s2.copy()
                    if r.loc != r2.loc:
                        self.wr(s, tl, r)
                        self.wr(s2, tl, r2)
                        r = r2 = RV(r.av, tl)
                        s = self.join2(s, s2)
                        r = RV(self.rd(s, tl), tl)
                        continue
                s = self.join2(s, s2)
                x, y = r.av, r2.av
                t = x.t if x.t == y.t else self.T.mk("phi", min(x.t, y.t), max(x.t, y.t))
                r = RV(AV(t, x.lab | y.lab, tuple(dict.fromkeys(x.ref + y.ref))[:6], tuple(dict.fromkeys(x.clo + y.clo))[:6]), r.loc)
            out.append((s, r))
        return out

    # ---- conditions ---------------------------------------------------------------------------------------------
    def known(self, st, t):
        k = self.T.tab[t]
        if k[0] == "c":
            return bool(k[2]) if k[1] == "i" else True
        if k[0] == "&":
            return True
        v = st.conds.get(t)
        if v is not None:
            return v
        if k[0] == "==":
            a, b = k[1], k[2]
            if a == b:
                return True
            ca, cb = self.T.const(a), self.T.const(b)
            if ca[0] and cb[0]:
                return ca[1] == cb[1]
            x, y = (a, b) if cb[0] else (b, a)
            if self.T.tab[x][0] == "&" and self.T.const(y) == (True, 0):
                return False
            if self.T.const(y)[0]:
                for kk, vv in st.conds.items():
                    if vv:
                        q = self.T.tab[kk]
                        if q[0] == "==" and x in (q[1], q[2]):
                            o = q[2] if q[1] == x else q[1]
                            if self.T.const(o)[0] and o != y:
                                return False
                        # a bool known true/false versus a constant
                if x in st.conds and self.T.const(y)[1] in (0, 1) and self.T.tab[x][0] in ("==", "<", "!"):
                    return st.conds[x] == bool(self.T.const(y)[1])
        if k[0] == "<":
            ca, cb = self.T.const(k[1]), self.T.const(k[2])
            if ca[0] and cb[0] and isinstance(ca[1], int) and isinstance(cb[1], int):
                return ca[1] < cb[1]
            if k[1] == k[2]:
                return False
        if k[0] == "!":
            r = self.known(st, k[1])
            return None if r is None else not r
        return None

    def assume(self, st, t, val):
        """Adds t==val; False if contradictory."""
        k = self.T.tab[t]
        if k[0] == "!":
            return self.assume(st, k[1], not val)
        r = self.known(st, t)
        if r is not None:
            return r == val
        if k[0] == "and" and val:
            return all(self.assume(st, x, True) for x in k[1:])
        if k[0] == "or" and not val:
            return all(self.assume(st, x, False) for x in k[1:])
        st.conds[t] = val
        return True

    def cmp(self, op, a, b):
        T = self.T
        ca, cb = T.const(a), T.const(b)
        if ca[0] and cb[0] and type(ca[1]) == type(cb[1]):
            x, y = ca[1], cb[1]
            return T.c({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
        if op == "==":
            return T.mk("==", min(a, b), max(a, b))
        if op == "!=":
            return T.mk("!", T.mk("==", min(a, b), max(a, b)))
        if op == "<":
            return T.mk("<", a, b)
        if op == ">":
            return T.mk("<", b, a)
        if op == "<=":
            return T.mk("!", T.mk("<", b, a))
        return T.mk("!", T.mk("<", a, b))

    def truth(self, rv):
        """Term whose truth is the truth of the value."""
        return rv.av.t

    def cond(self, n, st):
        """-> (states where n is true, states where false)"""
        k = n["k"]
        if n.get("cv") is not None and k not in ("if",) and not isinstance(n.get("cv"), dict):
            return ([st], []) if n["cv"] else ([], [st])
        if k == "un" and n["op"] == "!":
            a, b = self.cond(n["e"], st)
            return b, a
        if k == "opcall" and n["op"] == "!" and len(n["a"]) == 1:
            a, b = self.cond(n["a"][0], st)
            return b, a
        if k == "conv":
            ts, fs = [], []
            for s, rv in self.ev(n["e"], st):
                self.split(s, rv, n, ts, fs)
            return ts, fs
        if k == "bin" and n["op"] == "&&":
            a, b = self.cond(n["x"], st)
            ts, fs = [], list(b)
            for s in a:
                x, y = self.cond(n["y"], s)
                ts += x
                fs += y
            return ts, self.merge(fs)
        if k == "bin" and n["op"] == "||":
            a, b = self.cond(n["x"], st)
            ts, fs = list(a), []
            for s in b:
                x, y = self.cond(n["y"], s)
                ts += x
                fs += y
            return self.merge(ts), fs
        if k == "cast":
            t = self.ty(n.get("t"))
            if t.get("bool") or not t:
                return self.cond(n["e"], st)
        ts, fs = [], []
        for s, rv in self.ev(n, st):
            self.split(s, rv, n, ts, fs)
        return ts, fs

    def split(self, s, rv, n, ts, fs):
        t = self.truth(rv)
        if rv.av.clo or (rv.av.ref and rv.loc is None):
            # a closure or a known object address is non-null
            pass
        r = self.known(s, t)
        if r is True or r is None:
            s1 = s if r is True else s.copy()
            if r is True or self.assume(s1, t, True):
                self.branch_rv = rv
                self.R.branch(self, s1, n, True)
                ts.append(s1)
        if r is False or r is None:
            s2 = s
            if r is False or self.assume(s2, t, False):
                self.branch_rv = rv
                self.R.branch(self, s2, n, False)
                fs.append(s2)

    # ---- expressions ---------------------------------------------------------------------------------------------
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("analysis budget exhausted at %s" % self.chain())

    def evs(self, ns, st):
        outs = [(st, [])]
        for n in ns:
            nx = []
            for s, vs in outs:
                for s2, v in self.ev(n, s):
                    nx.append((s2, vs + [v]))
            outs = nx
            if len(outs) > 24:
                outs = outs[:24] if not outs else self._cap(outs)
        return outs

    def _cap(self, outs):
        g = {}
        for s, vs in outs:
            g.setdefault((s.facts, s.locks, len(vs)), []).append((s, vs))
        r = []
        for v in g.values():
            s, vs = v[0]
            for s2, vs2 in v[1:]:
                s = self.join2(s, s2)
                vs = [RV(AV(x.av.t if x.av.t == y.av.t else self.T.fresh("cap"), x.av.lab | y.av.lab, tuple(dict.fromkeys(x.av.ref + y.av.ref)), tuple(dict.fromkeys(x.av.clo + y.av.clo))), x.loc) for x, y in zip(vs, vs2)]
            r.append((s, vs))
        return r

    def varloc(self, n):
        if "g" in n:
            return (("g", n["g"]),)
        return self.idloc(n["id"])

    def idloc(self, i):
        l = self.fr.vmap.get(i)
        return l if l is not None else (("v", self.fr.id, i),)

    def lv(self, n, st):
        """-> [(st, loc)] ; evaluates n as a location."""
        k = n["k"]
        if k == "var":
            loc = self.varloc(n)
            t = self.ty(n.get("t"))
            if (t.get("ref") or t.get("rref")) and loc in st.store and st.store[loc].ref:
                r = st.store[loc].ref
                if len(r) == 1:
                    return [(st, r[0])]
                return [(st.copy(), x) for x in r]
            if "g" in n and loc not in st.store:
                self.init_global(st, n["g"], loc)
            return [(st, loc)]
        if k == "mem":
            b = n["b"]
            out = []
            if n.get("arrow"):
                for s, rv in self.ev(b, st):
                    for i, l in enumerate(self.deref(s, rv)):
                        out.append((s if len(rv.av.ref) <= 1 else s.copy(), l + (n["n"],)))
            else:
                for s, l in self.lv(b, st):
                    out.append((s, l + (n["n"],)))
            return out
        if k == "un" and n["op"] == "*":
            out = []
            for s, rv in self.ev(n["e"], st):
                ls = self.deref(s, rv)
                for l in ls:
                    out.append((s if len(ls) == 1 else s.copy(), l))
            return out
        if k == "un" and n["op"] in ("++", "--") and not n.get("post"):
            out = []
            for s, rv in self.ev(n, st):
                out.append((s, rv.loc if rv.loc is not None else self.tmpof(s, rv)))
            return out
        if k == "this":
            return [(st, self.fr.this or (("this0",),))]
        if k == "idx":
            out = []
            for s, b in self.ev(n["b"], st):
                for s2, i in self.ev(n["i"], s):
                    h = getattr(self.R, "idx", None)
                    if h:
                        h(self, s2, n, b, i)
                    base = list(b.av.ref) or ([b.loc] if b.loc is not None else self.deref(s2, b))
                    for l in base:
                        if l and l[-1] == "[]":
                            l2 = l
                        else:
                            l2 = l + ("[]",)
                        out.append((s2 if len(base) == 1 else s2.copy(), l2))
            return out
        if k == "cond":
            out = []
            a, b = self.cond(n["c"], st)
            for s in a:
                out += self.lv(n["x"], s)
            for s in b:
                out += self.lv(n["y"], s)
            return out
        if k == "cast":
            return self.lv(n["e"], st)
        if k == "copy":
            out = []
            for s, rv in self.ev(n, st):
                out.append((s, self.tmpof(s, rv)))
            return out
        if k == "opcall" and n["op"] == "->":
            out = []
            for s, rv in self.ev(n["a"][0], st):
                for l in self.deref_smart(s, rv):
                    out.append((s, l))
            return out
        out = []
        for s, rv in self.ev(n, st):
            if rv.loc is not None:
                out.append((s, rv.loc))
            else:
                out.append((s, self.tmpof(s, rv)))
        return out

    def tmpof(self, st, rv):
        l = self.tmp()
        self.wr(st, l, rv)
        return l

    def init_global(self, st, g, loc):
        gd = self.P.globals.get(g)
        if gd and gd.get("e") is not None:
            e = gd["e"]
            save = self.fr
            self.fr = Frame(("g", g), None, gd["_T"], None, None, None, gd["file"], ("g", g))
            try:
                if e.get("cv") is not None and not isinstance(e["cv"], dict):
                    cv = e["cv"]
                    st.store[loc] = self.cst(int(cv) if isinstance(cv, str) and e["k"] not in ("str", "flt") else cv)
                elif e["k"] in ("ctor", "init", "copy", "str", "call"):
                    r = self.ev(e, st)
                    if len(r) == 1:
                        self.wr(st, loc, r[0][1])
            finally:
                self.fr = save

    def ev(self, n, st):
        self.tick()
        k = n["k"]
        cv = n.get("cv")
        if cv is not None and not isinstance(cv, dict):
            if isinstance(cv, str) and k not in ("str", "flt"):
                cv = int(cv)
            return [(st, RV(self.cst(cv), None))]
        m = getattr(self, "e_" + k, None)
        if m:
            return m(n, st)
        # unknown node: evaluate the children for effects
        outs = [(st, E0)]
        for c in kids(n):
            nx = []
            for s, lab in outs:
                for s2, rv in self.ev(c, s):
                    nx.append((s2, lab | rv.av.lab))
            outs = nx
        return [(s, RV(self.fresh(k, lab), None)) for s, lab in outs]

    def e_none(self, n, st):
        return [(st, RV(self.fresh("none"), None))]

    def e_null(self, n, st):
        return [(st, RV(self.cst(0), None))]

    def e_zero(self, n, st):
        return [(st, RV(self.cst(0), None))]

    def e_this(self, n, st):
        l = self.fr.this or (("this0",),)
        return [(st, RV(AV(self.T.mk("this", l), E0, (l,), ()), None))]

    def e_fn(self, n, st):
        return [(st, RV(AV(self.T.mk("fn", n["u"]), E0, (), (Clo(None, self.fr.T, None, None, None, fn=n["u"]),)), None))]

    def rdn(self, st, loc, n):
        self.R.load(self, st, loc, n)
        return RV(self.rd(st, loc), loc)

    def e_var(self, n, st):
        return [(s, self.rdn(s, l, n)) for s, l in self.lv(n, st)]

    e_mem = e_var
    e_idx = e_var

    def e_un(self, n, st):
        op = n["op"]
        if op == "*":
            return [(s, self.rdn(s, l, n)) for s, l in self.lv(n, st)]
        if op == "&":
            out = []
            if n["e"]["k"] == "fn":
                return self.ev(n["e"], st)
            for s, l in self.lv(n["e"], st):
                out.append((s, RV(AV(self.T.mk("&", l), E0, (l,), ()), None)))
            return out
        if op in ("++", "--"):
            out = []
            for s, l in self.lv(n["e"], st):
                old = self.rdn(s, l, n).av
                c, v = self.isc(old)
                if c and isinstance(v, int) and not self.loopdepth:
                    nv = self.cst(v + (1 if op == "++" else -1), old.lab)
                elif old.ref:
                    nv = AV(self.T.mk("op", "+" if op == "++" else "-", old.t, self.T.c(1)), old.lab, old.ref, ())
                else:
                    nv = AV(self.T.mk("op", "+" if op == "++" else "-", old.t, self.T.c(1)), old.lab, (), ())
                self.wr(s, l, RV(nv, None), n)
                out.append((s, RV(old, None) if n.get("post") else RV(nv, l)))
            return out
        if op == "!":
            return [(s, RV(AV(self.not_(rv.av.t), rv.av.lab, (), ()), None)) for s, rv in self.ev(n["e"], st)]
        out = []
        for s, rv in self.ev(n["e"], st):
            c, v = self.isc(rv.av)
            if c and isinstance(v, int) and op in "-~+":
                out.append((s, RV(self.cst({"-": -v, "~": ~v, "+": v}[op], rv.av.lab), None)))
            else:
                out.append((s, RV(AV(self.T.mk("un", op, rv.av.t), rv.av.lab, (), ()), None)))
        return out

    def not_(self, t):
        k = self.T.tab[t]
        if k[0] == "!":
            return k[1]
        if k[0] == "c":
            return self.T.c(not k[2])
        return self.T.mk("!", t)

    def arith(self, op, a, b):
        ca, cb = self.isc(a), self.isc(b)
        lab = a.lab | b.lab
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return AV(self.cmp(op, a.t, b.t), lab, (), ())
        if ca[0] and cb[0] and isinstance(ca[1], int) and isinstance(cb[1], int):
            x, y = ca[1], cb[1]
            try:
                v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: int(x / y), "%": lambda: x % y,
                     "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y, "<<": lambda: x << y if y < 128 else 0, ">>": lambda: x >> y}[op]()
                return self.cst(v, lab)
            except Exception:
                pass
        ref = (a.ref or b.ref) if op in ("+", "-") and not (a.ref and b.ref) else ()
        if op == "^" and hasattr(self.R, "xor"):
            lab = self.R.xor(lab)
        x, y = a.t, b.t
        if op in ("+", "*", "&", "|", "^") and x > y:
            x, y = y, x
        return AV(self.T.mk("op", op, x, y), lab, ref, ())

    def e_bin(self, n, st):
        op = n["op"]
        if op in ("&&", "||"):
            # pure operands: build one term instead of splitting
            a, b = self.cond(n, st)
            out = []
            if a:
                for s in self.merge(a):
                    out.append((s, RV(self.cst(1), None)))
            if b:
                for s in self.merge(b):
                    out.append((s, RV(self.cst(0), None)))
            return out
        out = []
        if op == ",":
            for s, _ in self.ev(n["x"], st):
                out += self.ev(n["y"], s)
            return out
        for s, a in self.ev(n["x"], st):
            for s2, b in self.ev(n["y"], s):
                h = getattr(self.R, "binop", None)
                if h:
                    h(self, s2, n, a, b)
                self.cur_st = s2
                out.append((s2, RV(self.arith(op, a.av, b.av), None)))
        return out

    def e_assign(self, n, st):
        out = []
        op = n["op"]
        for s, v in self.ev(n["y"], st):
            for s2, l in self.lv(n["x"], s):
                if op == "=":
                    self.wr(s2, l, v, n)
                else:
                    old = self.rdn(s2, l, n["x"])
                    self.cur_st = s2
                    nv = self.arith(op[:-1], old.av, v.av) if not self.loopdepth or True else self.fresh("acc", old.av.lab | v.av.lab)
                    self.wr(s2, l, RV(nv, None), n)
                out.append((s2, self.rdq(s2, l)))
        return out

    def rdq(self, st, l):
        return RV(self.rd(st, l), l)

    def e_cond(self, n, st):
        a, b = self.cond(n["c"], st)
        out = []
        for s in a:
            out += self.ev(n["x"], s)
        for s in b:
            out += self.ev(n["y"], s)
        return self.merge_rv(out)

    def e_cast(self, n, st):
        out = []
        t = self.ty(n.get("t"))
        for s, rv in self.ev(n["e"], st):
            if n.get("imp") and t.get("int"):
                c, v = self.isc(rv.av)
                if not c:
                    rv = RV(AV(self.T.mk("narrow", t["int"], rv.av.t), rv.av.lab, rv.av.ref, rv.av.clo), None)
            elif t.get("int") and not t.get("bool") and not t.get("enum") and t["int"] < 32 and not self.isc(rv.av)[0] and not rv.av.ref:
                rv = RV(AV(self.T.mk("narrow", t["int"], rv.av.t), rv.av.lab, rv.av.ref, rv.av.clo), None)
            out.append((s, rv))
        return out

    def e_conv(self, n, st):
        out = []
        t = self.ty(n.get("t"))
        for s, rv in self.ev(n["e"], st):
            r = self.R.call(self, s, n, n["f"], rv, [])
            if r is not None:
                out += r
                continue
            if t.get("bool"):
                out.append((s, RV(AV(rv.av.t, rv.av.lab, (), ()), None)))
            elif t.get("rec", "").startswith(VIEW):
                out.append((s, self.view(s, rv)))
            else:
                fn = self.P.fns.get(n["u"])
                if fn:
                    out += self.invoke(fn, s, rv.loc if rv.loc is not None else self.tmpof(s, rv), [], n)
                else:
                    out.append((s, rv))
        return out

    def view(self, s, rv):
        """A non-owning view of rv's contents."""
        ref = (rv.loc,) if rv.loc is not None and not (rv.av.ref and self.isview(rv)) else rv.av.ref
        return RV(AV(rv.av.t, rv.av.lab, ref or rv.av.ref, ()), None)

    def isview(self, rv):
        return False

    def e_copy(self, n, st):
        out = []
        for s, rv in self.ev(n["e"], st):
            out.append((s, rv))
        return out

    def e_lambda(self, n, st):
        vmap = {}
        outs = [st]
        for c in n["caps"]:
            if "id" not in c:
                continue
            if c.get("init") is not None:
                r = self.ev(c["init"], st)
                if r:
                    st = r[0][0]
                    l = (("c", self.fr.id, n["l"], c["id"]),)
                    self.wr(st, l, r[0][1])
                    vmap[c["id"]] = l
                continue
            src = self.idloc(c["id"])
            if c.get("ref"):
                vmap[c["id"]] = src
            else:
                a = st.store.get(src)
                l = (("c", self.fr.id, n["l"], c["id"]),)
                self.wr(st, l, self.rdq(st, src))
                vmap[c["id"]] = l
        clo = Clo(n, self.fr.T, vmap, self.fr.this, self.fr.tu)
        lab = E0
        return [(st, RV(AV(self.T.mk("lam", id(n)), lab, (), (clo,)), None))]

    def e_new(self, n, st):
        l = (("h", self.fr.id, n["l"], n.get("t")),)
        t = self.ty(n["t"])
        if t.get("rec"):
            st.store[l + ("@cls",)] = self.cst(t["rec"])
        outs = [(st, None)]
        if n.get("e") is not None:
            outs = []
            for s, rv in (self.ctor(n["e"], st, l) if n["e"]["k"] == "ctor" else self.ev(n["e"], st)):
                if n["e"]["k"] != "ctor":
                    self.wr(s, l, rv)
                outs.append((s, None))
        return [(s, RV(AV(self.T.mk("&", l), E0, (l,), ()), None)) for s, _ in outs]

    def e_delete(self, n, st):
        out = []
        for s, v in self.ev(n["e"], st):
            self.R.delete(self, s, n, v)
            out.append((s, RV(self.fresh("del"), None)))
        return out

    def thrown(self, st):
        """An exception leaves st."""
        if len(self.sinks) == 1:
            self.R.uncaught(self, st)
            return
        k = self.sinks[-1]
        k.append(st)
        if len(k) > 24:
            k[:] = self.merge(k, 1)

    def e_throw(self, n, st):
        if n.get("e"):
            for s, _ in self.ev(n["e"], st):
                self.thrown(s)
        else:
            self.thrown(st)
        return []

    def e_stmtexpr(self, n, st):
        r = self.ex(n["s"], [st])
        return [(s, RV(self.fresh("se"), None)) for s in r["n"]]

    def e_init(self, n, st):
        out = []
        names = n.get("fn")
        l = self.tmp()
        t = self.ty(n.get("t"))
        if len(n["a"]) <= 1 and not names and not n.get("c") and not t.get("rec") and (t.get("int") or t.get("bool") or t.get("ptr") or t.get("flt") or t.get("s") in ("double", "float")):
            if not n["a"]:
                return [(st, RV(self.cst(0), None))]
            return self.ev(n["a"][0], st)
        for s, vs in self.evs(n["a"], st):
            if n.get("c"):
                s.store[l + ("@cls",)] = self.cst(n["c"])
            lab = E0
            if names:
                s.store[l] = AV(self.T.mk("agg", tuple(v.av.t for v in vs)), E0, (), ())
                for nm, v in zip(names, vs):
                    if nm:
                        self.wr(s, l + (nm,), v)
            else:
                s.store[l] = AV(self.T.mk("agg", tuple(v.av.t for v in vs)), E0, (), ())
                for v in vs:
                    self.wr(s, l + ("[]",), v, weak=True)
            out.append((s, self.rdq(s, l)))
        return out

    def e_ctor(self, n, st):
        l = self.tmp()
        return self.ctor(n, st, l)

    def ctor(self, n, st, l):
        """Construct an object at l."""
        c = n.get("c") or ""
        out = []
        for s, vs in self.evs(n["a"], st):
            r = self.R.call(self, s, n, n.get("f", c), RV(self.rd(s, l), l), vs)
            if r is not None:
                out += r
                continue
            out += self.ctor_v(n, s, l, c, n.get("u"), vs)
        return out

    def ctor_v(self, n, s, l, c, u, vs):
        import models
        r = models.ctor(self, n, s, l, c, vs)
        if r is not None:
            return r
        fn = self.P.fns.get(u) if u else None
        s.store[l + ("@cls",)] = self.cst(c)
        if fn and self.can_inline(fn):
            s.store[l] = AV(self.T.fresh("obj " + c), E0, (), ())
            return [(s2, RV(self.rd(s2, l), l)) for s2, _ in self.invoke(fn, s, l, vs, n)]
        lab = E0
        for v in vs:
            lab = lab | self.deep(s, v)
        s.store[l] = AV(self.T.mk("ctor", c, tuple(v.av.t for v in vs)) if vs else self.T.fresh("obj " + c), lab, (), ())
        cd = self.P.classes.get(c)
        if cd and not vs:
            save = self.fr
            for f in cd["fields"]:
                if f.get("e") is not None:
                    self.fr = Frame(self.fr.id, self.fr.fn, cd["_T"], l, self.fr.up, None, self.fr.tu, self.fr.key)
                    try:
                        r = self.ev(f["e"], s)
                        if len(r) == 1:
                            s = r[0][0]
                            self.wr(s, l + (f["n"],), r[0][1])
                    finally:
                        self.fr = save
        return [(s, RV(self.rd(s, l), l))]

    # ---- calls ---------------------------------------------------------------------------------------------------
    def e_opcall(self, n, st):
        op = n["op"]
        out = []
        if op == "=" and n.get("meth"):
            for s, v in self.ev(n["a"][1], st):
                for s2, l in self.lv(n["a"][0], s):
                    r = self.R.call(self, s2, n, n["f"], RV(self.rd(s2, l), l), [v])
                    if r is not None:
                        out += r
                        continue
                    import models
                    if l in models.TIES:
                        models.tie_assign(self, s2, models.TIES[l], v)
                        out.append((s2, self.rdq(s2, l)))
                        continue
                    fn = self.P.fns.get(n.get("u"))
                    if fn and self.can_inline(fn):
                        out += self.invoke(fn, s2, l, [v], n)
                        continue
                    t = self.ty((n.get("pt") or [None])[0]) if n.get("pt") else {}
                    self.wr(s2, l, v, n)
                    out.append((s2, self.rdq(s2, l)))
            return out
        if op == "->":
            for s, rv in self.ev(n["a"][0], st):
                fn = self.P.fns.get(n.get("u"))
                ls = self.deref_smart(s, rv)
                out.append((s, RV(AV(rv.av.t, rv.av.lab, tuple(ls), ()), None)))
            return out
        for s, vs in self.evs(n["a"], st):
            obj, args = (vs[0], vs[1:]) if n.get("meth") else (None, vs)
            out += self.call_v(n, s, n.get("f"), n.get("u"), obj, args)
        return out

    def deref_smart(self, s, rv):
        if rv.av.ref:
            return list(rv.av.ref)
        k = None
        return [(("d", rv.av.t),)]

    def e_call(self, n, st):
        out = []
        if "fe" in n:
            # call through an expression (function pointer / member pointer)
            for s, fv in self.ev(n["fe"], st):
                for s2, vs in self.evs(n["a"], s):
                    out += self.call_closures(n, s2, fv, vs)
            return out
        o = n.get("o")
        if o is not None:
            for s, ov in (self.obj_of(o, st, n)):
                for s2, vs in self.evs(n["a"], s):
                    out += self.call_v(n, s2, n["f"], n["u"], ov, vs)
            return self.merge_rv(out)
        for s, vs in self.evs(n["a"], st):
            out += self.call_v(n, s, n.get("f"), n.get("u"), None, vs)
        return self.merge_rv(out)

    def obj_of(self, o, st, n):
        """Receiver: a glvalue; through a pointer when the call uses ->."""
        out = []
        if n.get("arrow"):
            for s, rv in self.ev(o, st):
                ls = self.deref_smart(s, rv)
                for l in ls:
                    s2 = s if len(ls) == 1 else s.copy()
                    out.append((s2, RV(self.rd(s2, l), l)))
        else:
            for s, rv in self.ev(o, st):
                if rv.loc is None and rv.av.ref and not rv.av.clo and o["k"] in ("this",):
                    out.append((s, RV(self.rd(s, rv.av.ref[0]), rv.av.ref[0])))
                else:
                    out.append((s, rv))
        return out

    def can_inline(self, fn):
        if self.R.no_inline(self, fn):
            return False
        if len(self.stack) > self.R.inline_max:
            return False
        if fn.u in self.stack:
            return False
        return True

    def call_v(self, n, s, f, u, obj, args):
        f = f or ""
        self.visited_calls.add((self.fr.fn.file if self.fr.fn else self.fr.tu, n.get("l"), f))
        r = self.R.call(self, s, n, f, obj, args)
        if r is not None:
            return r
        import models
        r = models.call(self, n, s, f, obj, args)
        if r is not None:
            return r
        if self.intry:
            self.thrown(s.copy())
        fn = None
        if n.get("virt") and not n.get("qual") and obj is not None:
            fns = self.vtargets(s, u, f, obj)
            fns = [x for x in fns if self.can_inline(x)]
            if fns:
                out = []
                for i, x in enumerate(fns):
                    s2 = s if i == len(fns) - 1 else s.copy()
                    ol = obj.loc if obj.loc is not None else self.tmpof(s2, obj)
                    out += self.invoke(x, s2, ol, args, n)
                return out
        fn = self.P.fns.get(u)
        if fn and self.can_inline(fn):
            ol = None
            if obj is not None:
                ol = obj.loc if obj.loc is not None else (obj.av.ref[0] if obj.av.ref else self.tmpof(s, obj))
            return self.invoke(fn, s, ol, args, n)
        if n.get("noret"):
            self.thrown(s)
            return []
        if n.get("op") == "()" and obj is not None:
            return self.call_closures(n, s, obj, args)
        return self.opaque(n, s, f, obj, args)

    def vtargets(self, s, u, f, obj):
        cls = None
        if obj.loc is not None:
            a = s.store.get(obj.loc + ("@cls",))
            if a is not None:
                c, v = self.isc(a)
                if c:
                    cls = v
        if cls:
            fn = self.P.resolve(cls, u, f)
            if fn:
                return [fn]
        ov = [self.P.fns[m] for c, m in self.all_over(u) if m in self.P.fns]
        base = self.P.fns.get(u)
        if base:
            ov = [base] + ov
        if len(ov) == 1:
            return ov
        return []

    def all_over(self, u, seen=None):
        out = []
        for c, m in self.P.overriders.get(u, []):
            out.append((c, m))
            out += self.all_over(m)
        return out

    def call_closures(self, n, s, fv, args):
        clos = fv.av.clo
        if not clos and fv.loc is not None:
            a = s.store.get(fv.loc + ("@cls",))
            if a is not None:
                c, v = self.isc(a)
                for fn in self.P.byname.get("%s::operator()" % v, []) if c else []:
                    if self.can_inline(fn):
                        return self.invoke(fn, s, fv.loc, args, n)
        if not clos:
            return self.opaque(n, s, n.get("f") or "?indirect", fv, args)
        out = []
        for i, c in enumerate(clos):
            s2 = s if i == len(clos) - 1 else s.copy()
            out += self.call_clo(c, s2, args, n)
        return self.merge_rv(out)

    def call_clo(self, c, s, args, n):
        if c.fn is not None:
            fn = self.P.fns.get(c.fn)
            a = list(c.bound) + list(args)
            obj = None
            if fn and fn.cls and not fn.d.get("static") and a:
                obj, a = a[0], a[1:]
            if fn and self.can_inline(fn):
                ol = None
                if obj is not None:
                    ol = obj.av.ref[0] if obj.av.ref else (obj.loc if obj.loc is not None else self.tmpof(s, obj))
                return self.invoke(fn, s, ol, a, n)
            return self.opaque(n, s, "?fnptr", None, a)
        key = ("lam", id(c.node))
        if key in self.stack or len(self.stack) > self.R.inline_max + 4:
            return self.opaque(n, s, "?lambda", None, args)
        return self.run_body(key, None, c.T, c.node["ps"], c.node["body"], s, c.this, args, n, vmap=c.vmap, tu=c.node.get("file", c.tu), lam=c.node)

    def frame_id(self, key, n):
        k = (self.fr.id if self.fr else 0, id(n) if n is not None else 0, key)
        i = self.frames.get(k)
        if i is None:
            i = self.frames[k] = len(self.frames) + 1
        return i

    def invoke(self, fn, s, this, args, n):
        self.visited_fns.add(fn.u)
        self.R.enter(self, s, fn, this, args)
        return self.run_body(fn.u, fn, fn.T, fn.d["ps"], fn.d.get("body"), s, this, args, n)

    def run_body(self, key, fn, T, ps, body, s, this, args, n, vmap=None, tu=None, lam=None):
        fid = self.frame_id(key, n)
        fr = Frame(fid, fn if fn else (LamFn(lam, tu, self.fr.fn if self.fr else None) if lam else None), T, this, self.fr, n, fn.tu if fn else tu, key)
        if vmap:
            fr.vmap = dict(vmap)
        save, self.fr = self.fr, fr
        self.stack.append(key)
        ld, self.loopdepth = self.loopdepth, self.loopdepth
        try:
            pre = (("v", fid),)
            # parameters
            for i, p in enumerate(ps):
                l = (("v", fid, p["id"]),)
                self.kill(s, l)
                t = T[p["t"]] if p["t"] >= 0 else {}
                if i < len(args):
                    v = args[i]
                    if t.get("ref") or t.get("rref"):
                        tl = v.loc if v.loc is not None else self.tmpof(s, v)
                        s.store[l] = AV(self.T.mk("&", tl), E0, (tl,), ())
                    else:
                        if t.get("rec", "").startswith(VIEW) and not t.get("ptr") and v.loc is not None and not v.av.ref:
                            v = self.view(s, v)
                        self.wr(s, l, v)
                else:
                    dv = self.ev(p["dflt"], s) if n is not None and p.get("dflt") is not None else []
                    if len(dv) == 1 and not (t.get("ref") or t.get("rref")):
                        s = dv[0][0]
                        self.wr(s, l, dv[0][1])
                    else:
                        s.store[l] = self.fresh("param " + p["n"])
            states = [s]
            rets = []
            if fn and fn.d.get("ctor"):
                states = self.run_inits(fn, s, this)
            if body is not None:
                o = self.ex(body, states)
                rets = o["r"] + [(x, RV(self.fresh("void"), None)) for x in o["n"]]
            else:
                rets = [(x, RV(self.fresh("nobody"), None)) for x in states]
            # by-value class results move to a temporary of the caller
            rt = T[fn.d["rt"]] if fn and fn.d.get("rt", -1) >= 0 else {}
            out = []
            byref = rt.get("ref") or rt.get("rref")
            for x, rv in rets:
                if rv.loc is not None and not byref and rv.loc[0][0] in ("v", "t", "c") and self.local_to(rv.loc, fid):
                    self.fr = save
                    tl = self.tmp()
                    self.fr = fr
                    self.wr(x, tl, rv)
                    rv = RV(x.store[tl], tl)
                if fn:
                    self.R.ret(self, x, fn, rv)
                out.append((x, rv))
            for x, _ in out:
                self.gc(x, fid)
            return self.merge_rv(out)
        finally:
            self.stack.pop()
            self.fr = save
            self.loopdepth = ld

    def local_to(self, loc, fid):
        r = loc[0]
        return len(r) > 1 and r[1] == fid

    def gc(self, s, fid):
        st = s.store
        dead = [k for k in st if k[0][0] in ("v", "t") and k[0][1] == fid]
        for k in dead:
            del st[k]

    def kill(self, s, l):
        n0 = len(l)
        for k in [k for k in s.store if k[:n0] == l]:
            del s.store[k]

    def run_inits(self, fn, s, this):
        states = [s]
        for i in fn.d.get("inits", []):
            nx = []
            for x in states:
                if "m" in i:
                    e = i["e"]
                    if e["k"] == "ctor":
                        r = self.ctor(e, x, this + (i["m"],))
                        nx += [y for y, _ in r]
                        continue
                    for y, rv in self.ev(e, x):
                        fl = this + (i["m"],)
                        cd = self.P.classes.get(fn.cls)
                        ft = None
                        if cd:
                            for f in cd["fields"]:
                                if f["n"] == i["m"]:
                                    ft = cd["_T"][f["t"]]
                        if ft and (ft.get("ref") or ft.get("rref")):
                            tl = rv.loc if rv.loc is not None else self.tmpof(y, rv)
                            y.store[fl] = AV(self.T.mk("&", tl), E0, (tl,), ())
                        else:
                            self.wr(y, fl, rv, e)
                        nx.append(y)
                else:
                    e = i["e"]
                    if e["k"] == "ctor":
                        cls_av = x.store.get(this + ("@cls",))
                        r = self.ctor(e, x, this)
                        for y, _ in r:
                            if cls_av is not None:
                                y.store[this + ("@cls",)] = cls_av
                            nx.append(y)
                    else:
                        for y, rv in self.ev(e, x):
                            nx.append(y)
            states = self.merge(nx)
        return states

    def opaque(self, n, s, f, obj, args, res_lab=None):
        """A call whose body is unknown: labels flow from inputs to outputs and mutable arguments."""
        self.unknown_calls[f] = self.unknown_calls.get(f, 0) + 1
        lab = E0
        if obj is not None:
            lab = lab | self.deep(s, obj)
        for a in args:
            lab = lab | self.deep(s, a)
        outs = [s]
        # closures handed to unknown code may run
        for a in args:
            if a.av.clo and not self.dryclo(f):
                nx = []
                for x in outs:
                    x0 = x.copy()
                    for c in a.av.clo:
                        ps = c.node["ps"] if c.node is not None else []
                        av = [RV(self.fresh("cbarg", lab), None) for _ in ps]
                        for y, rv in self.call_clo(c, x, av, n):
                            lab = lab | rv.av.lab
                            nx.append(y)
                    nx.append(x0)
                outs = self.merge(nx)
        pt = n.get("pt") or []
        res = []
        for x in outs:
            pure = bool(n.get("constm")) or (obj is None)
            mut = False
            for i, a in enumerate(args):
                t = self.ty(pt[i]) if i < len(pt) else {}
                if t.get("ref") and not t.get("const") and a.loc is not None:
                    self.touch(x, a.loc, lab, "out:" + f)
                    mut = True
                elif t.get("ptr") and not t.get("cptr"):
                    for l in a.av.ref:
                        self.touch(x, l, lab, "out:" + f)
                        mut = True
            if obj is not None and not n.get("constm") and not n.get("static") and obj.loc is not None:
                self.touch(x, obj.loc, lab, "mut:" + f)
                mut = True
            if not mut and pure and (n.get("constm")):
                t = self.T.mk("call", f, obj.av.t if obj is not None else -1, tuple(a.av.t for a in args))
            elif not mut and f in PURE:
                t = self.T.mk("call", f, -1, tuple(a.av.t for a in args))
            else:
                t = self.T.fresh(f)
            rl = lab if res_lab is None else res_lab
            rt = self.ty(n.get("t"))
            res.append((x, RV(AV(t, rl, (), ()), None)))
        return res

    def dryclo(self, f):
        return False

    # ---- statements ----------------------------------------------------------------------------------------------
    def ex(self, n, sts):
        """-> dict of channels n (normal), b, c (states), r ([(st, rv)])."""
        O = {"n": [], "b": [], "c": [], "r": []}
        if n is None:
            O["n"] = sts
            return O
        sts = self.merge(sts)
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            if k in ("unkst", "null", "asm"):
                O["n"] = sts
                return O
            m = self.s_expr_node
        for s in sts:
            self.tick()
            m(n, s, O)
        O["n"] = self.merge(O["n"])
        if len(O["r"]) > 1:
            O["r"] = self.merge_rv(O["r"], 2 * self.R.K)
        return O

    def add(self, O, o, keep=("n", "b", "c", "r")):
        for k in keep:
            O[k] += o[k]

    def s_expr_node(self, n, s, O):
        for s2, _ in self.ev(n, s):
            if any(x[1] and x[1][0][0] == "t" for x in s2.locks):
                s2.locks = tuple(x for x in s2.locks if not (x[1] and x[1][0][0] == "t"))
            O["n"].append(s2)

    def s_expr(self, n, s, O):
        for s2, _ in self.ev(n["e"], s):
            if any(x[1] and x[1][0][0] == "t" for x in s2.locks):
                s2.locks = tuple(x for x in s2.locks if not (x[1] and x[1][0][0] == "t"))
            O["n"].append(s2)

    def s_block(self, n, s, O):
        cur = [s]
        raii = []
        acc = {"b": [], "c": [], "r": []}
        for c in n["s"]:
            if c is None:
                continue
            if not cur and c["k"] not in ("case", "default", "label"):
                continue
            o = self.ex(c, cur)
            cur = o["n"]
            for kk in "bcr":
                acc[kk] += o[kk]
            for d in ([c] if c["k"] == "decl" else c["s"] if c["k"] == "decls" else []):
                t = self.ty(d.get("t"))
                rec = t.get("rec", "")
                if not (t.get("ref") or t.get("ptr")) and (rec.startswith(LOCKT) or "ScopeGuard" in rec or rec.startswith("std::thread") or rec.startswith(FUT)):
                    raii.append((d["id"], rec))
        if raii:
            cur = self.raii_exit(raii, cur)
            acc["b"] = self.raii_exit(raii, acc["b"])
            acc["c"] = self.raii_exit(raii, acc["c"])
            rr = []
            for s2, rv in acc["r"]:
                for s3 in self.raii_exit(raii, [s2]):
                    rr.append((s3, rv))
            acc["r"] = rr
        O["n"] += cur
        for kk in "bcr":
            O[kk] += acc[kk]

    def raii_exit(self, raii, sts):
        for vid, rec in reversed(raii):
            l = self.idloc(vid)
            nx = []
            for s in sts:
                if rec.startswith(LOCKT):
                    s.locks = tuple(x for x in s.locks if x[1] != l)
                    nx.append(s)
                elif "ScopeGuard" in rec:
                    a = s.store.get(l)
                    clos = a.clo if a else ()
                    for k, v in self.subs(s, l):
                        clos = clos + v.clo
                    cur = [s]
                    for c in dict.fromkeys(clos):
                        n2 = []
                        for x in cur:
                            n2 += [y for y, _ in self.call_clo(c, x, [], None)]
                        cur = n2
                    nx += cur
                else:
                    nx.append(s)
            sts = nx
        return sts

    def s_decls(self, n, s, O):
        cur = [s]
        for d in n["s"]:
            o = self.ex(d, cur)
            cur = o["n"]
        O["n"] += cur

    def s_decl(self, n, s, O):
        t = self.ty(n.get("t"))
        if n.get("static"):
            loc = (("g", n["g"]),)
            self.fr.vmap[n["id"]] = loc
            if loc not in s.store and n.get("e") is not None:
                for s2, rv in self.ev(n["e"], s):
                    self.wr(s2, loc, rv, n)
                    O["n"].append(s2)
            else:
                O["n"].append(s)
            return
        loc = (("v", self.fr.id, n["id"]),)
        self.fr.vmap.pop(n["id"], None)
        self.kill(s, loc)
        e = n.get("e")
        if e is None:
            if t.get("rec") and not t.get("ptr"):
                s.store[loc] = AV(self.T.fresh(n["n"]), E0, (), ())
                s.store[loc + ("@cls",)] = self.cst(t["rec"])
            else:
                s.store[loc] = self.fresh(n["n"])
            O["n"].append(s)
            return
        if t.get("ref") or t.get("rref"):
            for s2, rv in self.ev(e, s):
                l = rv.loc if rv.loc is not None else self.tmpof(s2, rv)
                s2.store[loc] = AV(self.T.mk("&", l), E0, (l,), ())
                self.bind(n, s2, l)
                O["n"].append(s2)
            return
        if e["k"] == "ctor" and t.get("rec") and not t.get("ptr"):
            for s2, rv in self.ctor(e, s, loc):
                if rv.loc != loc:
                    self.wr(s2, loc, rv, n)
                self.bind(n, s2, loc)
                O["n"].append(s2)
            return
        for s2, rv in self.ev(e, s):
            if t.get("rec", "").startswith(VIEW) and not t.get("ptr") and rv.loc is not None and not rv.av.ref:
                rv = self.view(s2, rv)
            self.wr(s2, loc, rv, n)
            self.bind(n, s2, loc)
            O["n"].append(s2)

    def bind(self, n, s, loc):
        for i, b in enumerate(n.get("bind", [])):
            f = b.get("f") or (("first", "second")[i] if i < 2 and len(n["bind"]) == 2 else "#%d" % i)
            if self.tuplelike(n, s, loc):
                f = "#%d" % i
            bl = loc + (f,)
            self.fr.vmap[b["id"]] = bl

    def tuplelike(self, n, s, loc):
        t = self.ty(n.get("t"))
        return t.get("rec", "").startswith("std::tuple")

    def s_if(self, n, s, O):
        sts = [s]
        if n.get("init"):
            sts = self.ex(n["init"], sts)["n"]
        if n.get("cv") and isinstance(n["cv"], dict):
            sts = self.ex(n["cv"], sts)["n"]
        ts, fs = [], []
        for x in sts:
            a, b = self.cond(n["c"], x)
            ts += a
            fs += b
        if ts:
            self.add(O, self.ex(n.get("x"), ts))
        if fs:
            if n.get("y"):
                self.add(O, self.ex(n["y"], fs))
            else:
                O["n"] += fs

    def s_switch(self, n, s, O):
        sts = [s]
        if n.get("init"):
            sts = self.ex(n["init"], sts)["n"]
        if n.get("cv") and isinstance(n["cv"], dict):
            sts = self.ex(n["cv"], sts)["n"]
        body = n["b"]["s"] if n["b"] and n["b"]["k"] == "block" else [n["b"]]
        flat = []  # (labels, stmt)
        for c in body:
            labs = []
            while c is not None and c["k"] in ("case", "default"):
                labs.append(c.get("v") if c["k"] == "case" else "default")
                c = c["s"]
            flat.append((labs, c))
        outs = []
        for x in sts:
            for s2, v in self.ev(n["c"], x):
                rest = [s2]
                entries = {}
                default_at = None
                for i, (labs, c) in enumerate(flat):
                    for lb in labs:
                        if lb == "default":
                            default_at = i
                            continue
                        cvn = lb.get("cv")
                        t = self.cmp("==", v.av.t, self.T.c(cvn)) if cvn is not None else self.T.fresh("case")
                        nr = []
                        for y in rest:
                            r = self.known(y, t)
                            if r is not False:
                                y1 = y.copy()
                                if self.assume(y1, t, True):
                                    self.branch_rv = v
                                    self.R.branch(self, y1, n, True)
                                    entries.setdefault(i, []).append(y1)
                            if r is not True:
                                if self.assume(y, t, False):
                                    nr.append(y)
                        rest = nr
                if default_at is not None:
                    entries.setdefault(default_at, []).extend(rest)
                    rest = []
                cur = []
                brk = list(rest)
                for i, (labs, c) in enumerate(flat):
                    cur = cur + entries.get(i, [])
                    if not cur:
                        continue
                    o = self.ex(c, cur)
                    cur = o["n"]
                    brk += o["b"]
                    O["c"] += o["c"]
                    O["r"] += o["r"]
                O["n"] += cur + brk

    def s_ret(self, n, s, O):
        if n.get("e") is None:
            O["r"].append((s, RV(self.fresh("void"), None)))
            return
        for s2, rv in self.ev(n["e"], s):
            O["r"].append((s2, rv))

    def s_break(self, n, s, O):
        O["b"].append(s)

    def s_continue(self, n, s, O):
        O["c"].append(s)

    def s_goto(self, n, s, O):
        raise AnalysisError("goto at %s" % self.where(n))

    def s_label(self, n, s, O):
        self.add(O, self.ex(n["s"], [s]))

    def s_try(self, n, s, O):
        sink = []
        self.sinks.append(sink)
        self.intry += 1
        entry = s.copy()
        try:
            o = self.ex(n["b"], [s])
        finally:
            self.sinks.pop()
            self.intry -= 1
        self.add(O, o)
        hs = self.merge([entry] + sink, 1)
        rethrow = True
        for h in n["h"]:
            cur = []
            for x in hs:
                y = x.copy()
                if h.get("id"):
                    y.store[(("v", self.fr.id, h["id"]),)] = self.fresh("exc")
                cur.append(y)
            self.add(O, self.ex(h["b"], cur))
            if not h.get("id") and not h.get("t"):
                rethrow = False
        if rethrow:
            for x in hs:
                self.thrown(x)

    def s_omp(self, n, s, O):
        self.add(O, self.ex(n["s"], [s]))

    # loops
    def s_while(self, n, s, O):
        self.loop(n, s, O, None, n["c"], None, n["b"], atleast=False, cvd=n.get("cv") if isinstance(n.get("cv"), dict) else None)

    def s_do(self, n, s, O):
        c = n.get("c") or {}
        if c.get("k") in ("bool", "int") and not c.get("cv", 1):     # do { ... } while (false): the body once
            o = self.ex(n["b"], [s])
            O["n"] += self.merge(o["n"] + o["c"] + o["b"])
            O["r"] += o["r"]
            return
        self.loop(n, s, O, None, n["c"], None, n["b"], atleast=True, post=True)

    def s_for(self, n, s, O):
        sts = self.ex(n.get("i"), [s])["n"]
        for x in sts:
            self.loop(n, x, O, None, n.get("c"), n.get("n"), n["b"], atleast=self.R.for_atleast if hasattr(self.R, "for_atleast") else False)

    def s_rfor(self, n, s, O):
        sts = [s]
        if n.get("init"):
            sts = self.ex(n["init"], sts)["n"]
        for x in sts:
            for s2, rv in self.ev(n["r"], x):
                base = list(rv.av.ref) if (rv.av.ref and self.isptrview(n["r"])) else ([rv.loc] if rv.loc is not None else [self.tmpof(s2, rv)])
                el = base[0] if base[0][-1] == "[]" else base[0] + ("[]",)

                def setup(st, el=el):
                    v = n["v"]
                    t = self.ty(v["t"])
                    loc = (("v", self.fr.id, v["id"]),)
                    self.kill(st, loc)
                    if t.get("ref") or t.get("rref"):
                        st.store[loc] = AV(self.T.mk("&", el), E0, (el,), ())
                        self.bind(v, st, el)
                    else:
                        self.wr(st, loc, RV(self.rd(st, el), el))
                        self.bind(v, st, loc)
                self.loop(n, s2, O, setup, None, None, n["b"], atleast=getattr(self.R, "rfor_atleast", False), rng=el)

    def isptrview(self, n):
        return n["k"] != "none"

    def loop(self, n, s, O, setup, c, inc, body, atleast=False, post=False, cvd=None, rng=None):
        self.loopdepth += 1
        self.loops.append(id(n))
        try:
            if atleast and not post:
                atleast = not self.surely_skipped(s, c, rng)
            heads = {(s.facts, s.locks): s}
            done = {}
            first = s.copy() if atleast and not post else None
            exits, work = [], [(s.facts, s.locks)]
            rounds = 0
            # phase 1: find the loop-head invariant (events suppressed)
            self.dry += 1
            try:
                while True:
                    rounds += 1
                    if rounds > 7:
                        break
                    changed = False
                    for key in list(heads):
                        h = heads[key]
                        if done.get(key) is h:
                            continue
                        done[key] = h
                        ends, ex, o = self.once(n, h.copy(), setup, c, inc, body, post, cvd)
                        for e in ends:
                            k2 = (e.facts, e.locks)
                            if k2 not in heads:
                                heads[k2] = self.havoc(e, e, force=False)
                                changed = True
                            else:
                                nh = self.havoc(heads[k2], e)
                                if nh is not heads[k2]:
                                    heads[k2] = nh
                                    changed = True
                    if len(heads) > 40:
                        raise Budget("too many loop head states at %s" % self.where(n))
                    if not changed:
                        break
            finally:
                self.dry -= 1
            # phase 2: events from the invariant
            for key, h in heads.items():
                zero_exit = h if not atleast else None
                ends, ex, o = self.once(n, h.copy(), setup, c, inc, body, post, cvd)
                if post or atleast:
                    # leaves only after at least one iteration
                    exits += (self.loop_exit(c, ends) if post else (self.leave(c, ends) if c is not None else ends))
                else:
                    exits += ex
                exits += o["b"]
                O["r"] += o["r"]
                for x in o["b"] + [y for y, _ in o["r"]]:
                    self.R.loop_break(self, x, n)
            O["n"] += self.merge(exits)
        finally:
            self.loopdepth -= 1
            self.loops.pop()

    def surely_skipped(self, s, c, rng):
        """The loop is known not to run from this very state."""
        if rng is not None:
            z = s.store.get(rng[:-1] + ("@size",)) if rng[-1] == "[]" else None
            return z is not None and self.isc(z) == (True, 0)
        if c is None:
            return False
        self.dry += 1
        try:
            a, b = self.cond(c, s.copy())
        finally:
            self.dry -= 1
        return not a

    def leave(self, c, ends):
        self.dry += 1
        try:
            out = []
            for e in ends:
                a, b = self.cond(c, e.copy())
                out += b
            return out or ends
        finally:
            self.dry -= 1

    def loop_exit(self, c, ends):
        out = []
        for e in ends:
            a, b = self.cond(c, e)
            out += b
        return out

    def once(self, n, h, setup, c, inc, body, post, cvd):
        """One iteration from head state h -> (end states, exit-without-iterating states, channels)."""
        O = {"n": [], "b": [], "c": [], "r": []}
        if cvd:
            hs = self.ex(cvd, [h])["n"]
        else:
            hs = [h]
        ts, fs = [], []
        for x in hs:
            if c is not None and not post:
                a, b = self.cond(c, x)
                ts += a
                fs += b
            else:
                ts.append(x)
                if setup is not None:
                    fs.append(x.copy())
        if setup:
            for x in ts:
                setup(x)
        for x in ts:
            self.R.iter_begin(self, x, n)
        o = self.ex(body, ts) if ts else O
        ends = self.merge(o["n"] + o["c"])
        for x in ends:
            self.R.iter_end(self, x, n)
        if inc is not None:
            e2 = []
            for x in ends:
                e2 += [y for y, _ in self.ev(inc, x)]
            ends = e2
        if post:
            e2 = []
            for x in ends:
                a, b = self.cond(c, x.copy())
                e2 += a
            # continue states for iteration; exits computed from ends
            return ends, [], o
        return ends, fs, o

    def havoc(self, h, e, force=True):
        """Loop-head widening: anything that differs becomes an unknown stable value."""
        s = None
        H, Es = h.store, e.store
        out = {}
        changed = False
        for k, x in H.items():
            y = Es.get(k)
            if y is None and len(k) > 1:
                y = self.rd(e, k)       # forgotten in the body: an ancestor was overwritten
            if y is None or y is x or y == x:
                out[k] = x
                continue
            lab = x.lab | y.lab
            ref = tuple(dict.fromkeys(x.ref + y.ref))[:6]
            clo = tuple(dict.fromkeys(x.clo + y.clo))[:6]
            kx = self.T.tab[x.t]
            if x.t == y.t or (kx[0] == "s" and kx[2] and isinstance(kx[2], tuple) and kx[2][0] == "loop"):
                t = x.t
            else:
                t = self.T.fresh(("loop", k[0]))
            nv = AV(t, lab, ref, clo)
            if nv != x:
                changed = True
            out[k] = nv
        for k, y in Es.items():
            if k in H:
                continue
            if k[0][0] in ("t",):
                continue
            if k[0][0] == "v" and len(k) == 1 and not any(q[0] == k[0] for q in ()):
                # variable declared inside the body
                pass
            par = any(k[:i] in H for i in range(1, len(k)))
            x = self.rd(h, k)
            if x.t == y.t and x.lab | y.lab == x.lab and x.ref == y.ref and x.clo == y.clo:
                continue
            if k[0][0] == "v" and not par:
                continue  # body-local
            out[k] = AV(self.T.fresh(("loop", k[0])), x.lab | y.lab, tuple(dict.fromkeys(x.ref + y.ref))[:6], tuple(dict.fromkeys(x.clo + y.clo))[:6])
            changed = True
        conds = {t: v for t, v in h.conds.items() if e.conds.get(t) == v}
        if len(conds) != len(h.conds):
            changed = True
        if not changed:
            return h
        return St(out, conds, h.facts, h.locks)


class LamFn:
    """Pseudo function for a lambda body (for reporting)."""
    __slots__ = ("file", "line", "f", "name", "u", "cls", "d", "outer")

    def __init__(self, node, tu, outer):
        self.file = (node or {}).get("file") or (outer.file if outer else tu)
        self.line = (node or {}).get("l", 0)
        self.outer = outer
        self.f = "lambda@%s:%d in %s" % (self.file, self.line, outer.f if outer else "?")
        self.name = "lambda"
        self.u = "lambda"
        self.cls = outer.cls if outer else None
        self.d = {"rt": -1}


Clo.capset = lambda self: set()
PURE = {"std::min", "std::max", "std::ceil", "std::floor", "std::log2", "std::abs", "std::sqrt", "ceil", "floor", "log2", "abs"}

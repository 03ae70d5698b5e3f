"""C22 reported progress stays within bounds."""
from prog import AnalysisError, fn_nodes
from ai import Rule, AV, RV, E0, Interp
import models
from runner import analyse, SELF

CLS = "psi::Progress"
W, PCT, WP, SUM, TW, PW, BAD = "W", "PCT", "W*PCT", "SUM", "TOTALW", "PARTW", "?"


class I22(Interp):
    def rootlab(self, loc):
        if loc[:1] == SELF and len(loc) > 1 and loc[1] == self.R.wf:
            return frozenset([W])
        if loc[:1] == SELF and len(loc) > 1 and loc[1] in self.R.pf:
            return frozenset([PCT])
        return E0

    def kind(self, a):
        c, v = self.isc(a)
        if c and v == 0:
            return "0"
        if c and isinstance(v, int) and not a.lab:
            return PCT if 0 <= v <= 100 else BAD
        ks = [l for l in a.lab if isinstance(l, str)]
        return ks[0] if len(ks) == 1 else BAD

    def arith(self, op, a, b):
        r = super().arith(op, a, b)
        if op in ("==", "<", ">", "!=", "<=", ">="):
            for x in (a, b):
                if {TW, PW} & x.lab and BAD not in x.lab:
                    self.R.tw.add(x.t)
        if op not in ("+", "*", "/", "-", "%"):
            return AV(r.t, E0, r.ref, r.clo)
        ka, kb = self.kind(a), self.kind(b)
        idx = frozenset(l for l in a.lab | b.lab if isinstance(l, tuple))
        k = BAD
        if op == "*" and {ka, kb} == {W, PCT}:
            k = WP
            self.R.seen(self, "prod", a if ka == W else b)
        elif op == "*" and ka == kb == W or op == "*" and "0" in (ka, kb):
            k = BAD
        elif op == "+" and {ka, kb} <= {"0", SUM, WP} and {ka, kb} != {"0"}:
            k = SUM
        elif op == "+" and {ka, kb} <= {"0", W, PW} and {ka, kb} != {"0"}:
            k = PW
            self.R.seen(self, "tot", a if ka == W else b)
        elif op == "/" and ka in (SUM, "0") and kb in (TW, PW):
            k = PCT
        elif op == "/" and ka == SUM and self.isc(b) == (True, 1):
            k = SUM
        elif op == "/" and ka == PCT and self.isc(b)[0] and self.isc(b)[1]:
            k = PCT
        if k == BAD and ka in (BAD, PCT, "0") and kb in (BAD, PCT, "0") and not (a.lab | b.lab):
            return AV(r.t, E0, r.ref, r.clo)
        return AV(r.t, frozenset([k]), r.ref, r.clo)


class R(Rule):
    K = 12
    sizelab = False
    for_atleast = rfor_atleast = True

    def __init__(self, cx, wf, pf, subf):
        self.cx, self.wf, self.pf, self.subf = cx, wf, pf, subf
        self.stored, self.idx, self.outs, self.pairs = [], [], [], []
        self.tw = set()
        self.brk = []

    def le100(self, I, st, t, d=0):
        if d > 6:
            return False
        k = I.T.tab[t]
        if k[0] == "c":
            return k[1] == "i" and 0 <= k[2] <= 100
        if k[0] == "call" and models.strip(k[1]) in ("std::min",):
            return any(self.le100(I, st, x, d + 1) for x in k[3])
        if k[0] == "call" and models.strip(k[1]) in ("std::max",):
            return all(self.le100(I, st, x, d + 1) for x in k[3])
        if k[0] == "call" and models.strip(k[1]) == "std::clamp":
            return self.le100(I, st, k[3][2], d + 1)
        if k[0] == "phi":
            return self.le100(I, st, k[1], d + 1) and self.le100(I, st, k[2], d + 1)
        if k[0] == "narrow":
            return self.le100(I, st, k[2], d + 1)
        if k[0] == "r" and k[1] == SELF[0] and k[2] and k[2][0] in self.pf:
            return True
        for c, v in st.conds.items():
            q = I.T.tab[c]
            if q[0] == "<":
                if v and q[1] == t and I.T.const(q[2])[0] and I.T.const(q[2])[1] <= 101:
                    return True
                if not v and q[2] == t and I.T.const(q[1])[0] and I.T.const(q[1])[1] <= 100:
                    return True
            if q[0] == "==" and v and t in (q[1], q[2]):
                o = q[2] if q[1] == t else q[1]
                if I.T.const(o)[0] and self.le100(I, st, o, d + 1):
                    return True
        return False

    def pct(self, I, st, av):
        if (TW in av.lab or SUM in av.lab or av.lab == frozenset([PCT])) and I.fr.fn.name == "Get" and not self.same_list(I, st) or any(f[0] == "cut" for f in st.facts):
            return False
        if av.lab == frozenset([SUM]):
            # undivided (or divided by 1): fine only where all weights are zero
            return any(st.conds.get(I.cmp("==", t, I.T.c(0))) is True for t in self.tw)
        return I.kind(av) in (PCT, "0") and not (BAD in av.lab) or self.le100(I, st, av.t)

    def lt(self, I, st, x, y):
        T = I.T
        if st.conds.get(T.mk("<", x, y)):
            return True
        for c, v in st.conds.items():
            q = T.tab[c]
            if v and q[0] == "<" and q[1] == x:
                z = q[2]
                if st.conds.get(T.mk("<", y, z)) is False:
                    return True
            if v and q[0] == "!" and False:
                return True
            # iteration with '!=': i != size, from 0 upwards
            if q[0] == "==" and not v and {q[1], q[2]} == {x, y} and self.counter(I, x):
                return True
        return False

    def counter(self, I, t):
        k = I.T.tab[t]
        return k[0] == "s" and isinstance(k[2], tuple) and k[2] and k[2][0] == "loop"

    def sizeof(self, I, st, loc, av):
        z = st.store.get(loc + ("@size",)) if loc is not None else None
        return z.t if z is not None else I.T.mk("size", av.t)

    def index(self, I, st, n, cls, v, idx):
        if I.dry or W not in v.av.lab:
            return
        good = self.lt(I, st, idx.av.t, self.sizeof(I, st, v.loc, v.av))
        self.idx.append((I.fr.fn.f, I.where(n), good))

    def seen(self, I, what, w):
        """Which list of weights a product or a total takes its weights from (on this path)."""
        k = I.T.tab[w.t]
        while k[0] == "narrow":
            k = I.T.tab[k[2]]
        if k[0] == "el" or k[0] == "." and k[2] == ("[]",):
            I.cur_st.add(("list", what, k[1]))

    def same_list(self, I, st):
        """The total is taken over the list the products are taken from."""
        pr = {f[2] for f in st.facts if f[:2] == ("list", "prod")}
        to = {f[2] for f in st.facts if f[:2] == ("list", "tot")}
        return not pr or not to or pr == to

    def call(self, I, st, n, f, obj, args):
        b = models.strip(f)
        if b == CLS + "::Get" and obj is not None and obj.loc != SELF:
            l = I.tmp("sub")
            st.store[l] = I.fresh("sub")
            st.store[l + ("percentage",)] = AV(I.T.fresh("pct"), frozenset([PCT]), (), ())
            for x in ("total", "finished", "running", "description"):
                st.store[l + (x,)] = AV(I.T.fresh(x), E0, (), ())
            return [(st, RV(st.store[l], l))]
        if b == CLS + "::Done" and obj is not None and obj.loc != SELF:
            st.add(("subdone",))
            return [(st, RV(I.fresh("void"), None))]
        if b == "std::accumulate" and len(args) == 3:
            r = args[0].av.ref[:1]
            full = args[1].av.ref[:1] == r and I.T.tab[args[0].av.t][:2] == ("it", "begin") and I.T.tab[args[1].av.t][:2] == ("it", "end") and I.T.tab[args[0].av.t][2] == I.T.tab[args[1].av.t][2]
            full = full or (I.T.tab[args[0].av.t][:2] == ("it", "cbegin") and I.T.tab[args[1].av.t][:2] == ("it", "cend") and args[1].av.ref[:1] == r)
            c, v = I.isc(args[2].av)
            if r and W in I.rd(st, r[0]).lab | args[0].av.lab:
                t = I.T.fresh("total")
                if n.get("ta"):
                    ty = I.fr.fn.T[n["ta"][-1]] if isinstance(n["ta"][-1], int) else {}
                    full = full and not (ty.get("int") and ty["int"] < 64)
                if full and c and v == 0:
                    self.tw.add(t)
                    st.add(("list", "tot", I.T.tab[args[0].av.t][2]))
                return [(st, RV(AV(t, frozenset([TW if full and c and v == 0 else BAD]), (), ()), None))]
        if b == "std::max" and len(args) == 2 and any(TW in a.av.lab for a in args):
            return [(st, RV(AV(I.T.fresh("total"), frozenset([TW]), (), ()), None))]
        m = b.rsplit("::", 1)[-1]
        if m in ("resize", "pop_back", "erase", "clear") and b.startswith("std::vector") and obj is not None and obj.loc is not None and obj.loc[:1] != SELF and W in I.deep(st, obj):
            sz = self.sizeof(I, st, obj.loc, obj.av)
            if not (m == "resize" and args and (self.lt(I, st, sz, args[0].av.t) or st.conds.get(I.T.mk("<", args[0].av.t, sz)) is False)):
                st.add(("cut", I.where(n)))
        if b in ("std::min", "std::clamp"):
            t = I.T.mk("call", b, -1, tuple(a.av.t for a in args))
            return [(st, RV(AV(t, frozenset([PCT]) if self.le100(I, st, t) else E0, (), ()), None))]
        return None

    def write(self, I, st, loc, rv, n):
        if I.dry and loc[:1] == SELF:
            pass
        av = st.store.get(loc)
        if av is None:
            return
        par = I.rd(st, loc[:-1]) if len(loc) > 1 else None
        if loc[-1] == "[]" and (W in I.rootlab(loc) or (par is not None and W in par.lab)):
            st.store[loc] = AV(av.t, frozenset([W]), av.ref, av.clo)
            return
        if loc[:1] == SELF and len(loc) == 2 and loc[1] in self.pf:
            if not I.dry:
                self.stored.append((I.fr.fn.f, I.where(n), self.pct(I, st, rv.av), I.T.show(rv.av.t)))
            st.store[loc] = AV(av.t, frozenset([PCT]), av.ref, av.clo)
            return
        if rv.loc is None and not av.lab and not av.ref and not av.clo:
            c, v = I.isc(av)
            if not (c and v == 0) and loc[-1] != "@size":
                if self.le100(I, st, av.t) and not c:
                    st.store[loc] = AV(av.t, frozenset([PCT]), av.ref, av.clo)
                elif not c or v not in (1,):
                    st.store[loc] = AV(av.t, frozenset([BAD]), av.ref, av.clo)
        if PW in av.lab and SUM not in av.lab:
            self.partial(I, st, loc, av)
        if loc[-1] == "percentage" and len(loc) > 1 and I.fr.fn is not None and rv.av is not None and not I.dry:
            self.outs.append((I.fr.fn.f, I.where(n), self.pct(I, st, rv.av), sorted(map(str, rv.av.lab)), I.T.show(rv.av.t)))

    def loop_break(self, I, st, n):
        if ("subdone",) in st.facts and not I.dry:
            self.brk.append((I.fr.fn.f, I.where(n)))

    def partial(self, I, st, loc, av):
        """A hand-written counted sum over the weights must be bounded by their number."""
        els = [I.T.tab[x] for x in I.T.sub(av.t) if I.T.tab[x][0] == "el"]
        for e in els:
            sizes = {I.T.mk("size", e[1])} | {st.store[l + ("@size",)].t for l, v in list(st.store.items()) if v.t == e[1] and l + ("@size",) in st.store}
            for c, v in st.conds.items():
                q = I.T.tab[c]
                if v and q[0] == "<" and q[1] == e[2] and self.counter(I, q[1]) and q[2] not in sizes:
                    st.store[loc] = AV(av.t, frozenset([BAD]), av.ref, av.clo)
                    return


def run(cx):
    p = cx.prog(scope=("psi/utils/progress",))
    cx.rule("every value stored into a progress percentage is provably at most 100 (clamped, constant, or an earlier percentage); every reported composite percentage is SUM(weight*percentage)/SUM(all weights) "
            "over the same weights; every subscript of the weights is dominated by a comparison with their number; marking done stores 100 and done=true and marks every part done on every path")
    cx.trust("size_t arithmetic on weights does not overflow", "the loops over sub-progresses visit each one once (range-for or counted loop)")
    cd = p.classes.get(CLS)
    if cd is None:
        raise AnalysisError("class psi::Progress vanished")
    T = cd["_T"]
    fs = {f["n"]: T[f["t"]] for f in cd["fields"]}
    pf = {n for n, t in fs.items() if "percent" in n}
    wf = [n for n, t in fs.items() if "weight" in n]
    subf = [n for n, t in fs.items() if "shared_ptr" in str(t) and "Progress" in str(t)]
    dn = [n for n, t in fs.items() if "done" in n]
    md = [n for n, t in fs.items() if "mode" in n]
    if not (pf and wf and subf and dn and md):
        raise AnalysisError("members of psi::Progress not recognised: %s" % sorted(fs))
    methods = [fn for fn in p.fns.values() if fn.cls == CLS]
    nst = nout = nidx = 0
    for fn in sorted(methods, key=lambda f: f.f):
        r = R(cx, wf[0], pf, subf[0])
        I, outs = analyse(p, r, fn, CLS, interp=I22)
        cx.count("methods_analysed")
        for f, wh, good, sh in r.stored:
            nst += 1
            cx.check(good, "percentage<=100", "store in " + f, "stores %s, which is not shown to be at most 100" % sh, wh)
        for f, wh, good, lab, sh in r.outs:
            nout += 1
            cx.check(good, "reported<=100", "report in " + f, "reports %s (%s), which is neither a percentage nor SUM(w*p)/SUM(w)" % (sh, ",".join(lab)), wh)
        for f, wh, good in r.idx:
            nidx += 1
            cx.check(good, "weight-index", "weights subscript in " + f, "the subscript is not bounded by the number of weights", wh)
        if fn.name == "Done":
            for f, wh in r.brk:
                cx.fail("done-parts", "Done: parts", "the loop marking the parts done can be left early", wh)
            donet = I.T.mk("r", SELF[0], (dn[0],))
            modet = I.T.mk("r", SELF[0], (md[0],))
            n = 0
            for s, rv in outs:
                if I.known(s, donet) is True:
                    continue
                n += 1
                wh = "%s:%d" % (fn.file, fn.line)
                ok = I.isc(I.rd(s, SELF + (list(pf)[0],))) == (True, 100)
                cx.check(ok, "done-100", "Done: percentage", "a path through Done leaves the percentage at %s" % I.T.show(I.rd(s, SELF + (list(pf)[0],)).t), wh)
                cx.check(I.isc(I.rd(s, SELF + (dn[0],))) == (True, 1), "done-flag", "Done: done flag", "a path through Done does not set the done flag", wh)
                single = I.known(s, I.cmp("==", modet, I.T.c(0)))
                cx.check(single is True or ("subdone",) in s.facts, "done-parts", "Done: parts", "a path through Done does not mark the parts done", wh)
            if not n:
                cx.fail("done-100", "Done: percentage", "no path through Done marks the job done", "%s:%d" % (fn.file, fn.line))
        if fn.name == "NextSubProgress":
            for s, rv in outs:
                em = [c for c, v in s.conds.items() if v and "size" in I.T.show(c) and I.T.tab[c][0] == "=="]
                cx.check(bool(em) or ("subdone",) in s.facts, "next-done", "NextSubProgress: previous part", "the previous part is not marked done", "%s:%d" % (fn.file, fn.line))
    cx.floor("percentage stores", nst, 3)
    cx.floor("reported percentages", nout, 2)
    cx.cov["weight subscripts"] = nidx

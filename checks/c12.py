"""C12 sizes, counts and indices that come from the peer are checked before they reach memory."""
import re
from prog import AnalysisError, fn_nodes, visit
from ai import AV, RV, E0, Budget
from flow import *
from c04 import test
import models
from runner import analyse, SELF

P, BYTES = "peer", "received bytes"
BYTE = ("yacl::Buffer", "std::basic_string", "std::string", "std::string_view", "std::basic_string_view", "yacl::ByteContainerView")
COPY = ("memcpy", "memmove", "std::memcpy", "std::memmove")
VIEWS = ("std::basic_string", "std::string", "std::string_view", "std::basic_string_view", "absl::Span", "yacl::ByteContainerView", "std::vector", "yacl::Buffer")
INDEXED = ("std::vector", "absl::Span", "std::array", "std::basic_string", "std::string", "std::string_view", "std::basic_string_view", "std::deque", "yacl::ByteContainerView", "std::bitset", "boost::dynamic_bitset")
SRC = re.compile(r"::(Recv|RecvInternal)$")


def size(f):
    if f.u not in SIZE:
        SIZE[f.u] = sum(1 for _ in fn_nodes(f))
    return SIZE[f.u]


SIZE, OWN = {}, {}


class R(Flow):
    K = 12
    sizelab = True
    inline_max = 5
    async_eager = True

    def __init__(self, root, sources, cx):
        super().__init__()
        self.root, self.sources, self.cx = root, sources, cx
        self.peer = set()         # terms whose value the peer chose
        self.sites = {}           # where -> (rule, ok, what)
        self.fields = set()
        self.handed = {}          # signature of a callback -> arguments that carry numbers the peer chose
        self.calls = {}
        self.subs = {}
        self.sizes = {}           # location -> terms that are its size

    def recv_labels(self, I, st, n, obj, args):
        return frozenset([P, BYTES])

    def no_inline(self, I, fn):
        return fn.u in self.sources and fn is not self.root and size(fn) > 40 or not (fn.file.rpartition(".")[0] == self.root.file.rpartition(".")[0] and size(fn) < 400 or size(fn) < 60)

    # ---- facts on terms
    def note(self, av):
        if P in av.lab:
            self.peer.add(av.t)

    def sub(self, I, t):
        """The values a term is computed from; another part of the same object is another value."""
        T = I.T
        if t in self.subs:
            return self.subs[t]
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            k = T.tab[x]
            if k[0] in ("c", "s", ".", "el"):
                continue
            for y in k[1:]:
                if type(y) is int:
                    todo.append(y)
                elif type(y) is tuple:
                    todo += [z for z in y if type(z) is int]
        self.subs[t] = seen
        return seen

    def parts(self, I, t):
        return [x for x in self.sub(I, t) if I.T.tab[x][0] not in ("c",)]

    def limits(self, I, st, t):
        """-> (upper bounds, lower bounds, equals, divided) known for a value with term t: terms of the other side."""
        up, lo, eq, div = [], [], [], False
        T = I.T
        for c, v in st.conds.items():
            k = T.tab[c]
            if k[0] not in ("<", "=="):
                continue
            a, b = k[1], k[2]
            ia, ib = self.about(I, t, a), self.about(I, t, b)
            if not ia and not ib:
                continue
            if k[0] == "==":
                mod = [x for x in self.sub(I, c) if T.tab[x][0] == "op" and T.tab[x][1] == "%" and t in self.sub(I, x)]
                if mod:
                    div = div or v and (T.const(a) == (True, 0) or T.const(b) == (True, 0))
                elif v:
                    eq.append(b if ia else a)
            elif v:
                if ia:
                    up.append(b)
                if ib:
                    lo.append(a)
            else:               # a >= b
                if ia:
                    lo.append(b)
                if ib:
                    up.append(a)
        return up, lo, eq, div

    def about(self, I, t, a):
        """The term a speaks of t; of any element of a container when t is one of its elements."""
        s = self.sub(I, a)
        k = I.T.tab[t]
        return t in s or k[0] == "el" and any(I.T.tab[x][:2] == k[:2] for x in s)

    def bounded(self, I, st, loc, a):
        """An upper bound has been established for the element at loc."""
        if self.limits(I, st, a.t)[0]:
            return True
        i = len(loc) - 1 - loc[::-1].index("[]")
        c = st.store.get(loc[:i])
        return c is not None and loc[i + 1:] == () and bool(self.limits(I, st, I.T.mk("el", c.t, c.t))[0])

    def owner(self, I, st, rv):
        out = []
        for l in rv.av.ref:
            out.append(l[:-1] if l and l[-1] == "[]" else l)
        return out

    def own(self, I, l):
        """A local buffer that was made with a size of our own, and is only filled afterwards."""
        fr = I.fr
        while fr is not None and l[0][:2] != ("v", fr.id):
            fr = fr.up
        if fr is None:
            return False
        fn = fr.fn
        while getattr(fn, "outer", None) is not None:
            fn = fn.outer
        if fn.u not in OWN:
            made, given = set(), set()
            for x in fn_nodes(fn):
                e = x.get("e")
                if x["k"] == "decl" and isinstance(e, dict):
                    while e["k"] in ("copy", "conv", "cast"):
                        e = e["e"]
                    c = e["c"].partition("<")[0] if isinstance(e.get("c"), str) else ""
                    ts = [fn.T[t] for t in e.get("pt", [])]
                    if e["k"] == "ctor" and c in ("yacl::Buffer", "std::basic_string", "std::string") and ts and "int" in ts[0] and (c == "yacl::Buffer") == (len([a for a in e["a"] if a["k"] != "ctor"]) == 1):
                        made.add(x["id"])
                t = x.get("x") if x["k"] == "assign" else x["a"][0] if x["k"] == "opcall" and x["op"] == "=" else None
                if t and t["k"] == "var":
                    given.add(t.get("id"))
            OWN[fn.u] = made - given
        return l[0][2] in OWN[fn.u]

    def room(self, I, st, l):
        """Term of the number of elements held at l, when it is known."""
        z = st.store.get(l + ("@size",))
        return z.t if z is not None else None

    def say(self, I, st, n, rule, good, what, why):
        w = I.where(n)
        k = (w, rule, what)
        if I.dry:
            return
        old = self.sites.get(k)
        self.sites[k] = (good and (old is None or old[0]), why, I.chain())

    def seeds(self, I, t):
        """The peer-chosen terms a term is computed from (the innermost ones)."""
        return [x for x in self.sub(I, t) if x in self.peer and I.T.tab[x][0] not in ("op", "c")] or [x for x in self.sub(I, t) if x in self.peer]

    def related(self, I, a, b):
        return a == b or bool(set(self.parts(I, a)) & set(self.parts(I, b)))

    # ---- uses
    def copy(self, I, st, n, args):
        dst, src, cnt = args[:3]
        for a in args[:3]:
            self.note(a.av)
        T = I.T
        t = cnt.av.t
        if P in cnt.av.lab:
            good, why = True, ""
            for s in self.seeds(I, t):
                if any(self.room(I, st, l) == t for l in self.owner(I, st, dst)):
                    continue
                up, lo, eq, div = self.limits(I, st, s)
                ok = False
                rooms = [r for r in (self.room(I, st, l) for l in self.owner(I, st, dst)) if r is not None]
                for r in rooms:
                    if s in self.sub(I, r):
                        quot = [x for x in self.sub(I, r) if T.tab[x][0] == "op" and T.tab[x][1] == "/" and s in self.sub(I, x)]
                        ok = ok or not quot or div or bool(eq)
                    else:
                        ok = ok or any(self.related(I, x, r) or T.const(x)[0] for x in up + eq)
                if not rooms:
                    bits = self.bits(I, n["a"][0])
                    cs = [T.const(x)[1] for x in up + eq if T.const(x)[0]]
                    ok = bool(cs) and (bits is None or min(cs) * 8 <= bits) if cs else bool(up or eq) and bits is None
                good = good and ok
            self.say(I, st, n, "copies fit", good, "copy of a length the peer chose", "the destination has not been sized from the length nor the length compared with what fits")
        self.read(I, st, n, n["a"][1], src, t)

    def bits(self, I, a):
        while a["k"] in ("cast", "conv", "copy") or a["k"] == "un" and a["op"] == "&":
            a = a["e"]
        t = I.ty(a["t"]) if isinstance(a.get("t"), int) and a["t"] >= 0 else {}
        return t.get("bits") if t.get("int") or "bits" in t else None

    def direct(self, I, a):
        """The node names received bytes themselves: .data() of a buffer, string or view, or a pointer variable."""
        while a["k"] in ("cast", "conv", "copy"):
            a = a["e"]
        if a["k"] in ("bin",) and a["op"] == "+":
            return self.direct(I, a["x"])
        if a["k"] == "call" and a.get("o"):
            c = models.strip(a.get("f") or "").rpartition("::")[0].partition("<")[0]
            return c in BYTE and models.strip(a["f"]).rpartition("::")[2] in ("data", "c_str")
        return a["k"] == "var"

    def read(self, I, st, n, a, src, t):
        """t bytes are read from src: must not exceed what was received."""
        T = I.T
        if not self.direct(I, a):
            return
        for l in self.owner(I, st, src):
            v = st.store.get(l)
            if v is None or BYTES not in v.lab or self.room(I, st, l) is not None or self.own(I, l):
                continue
            s = T.mk("size", v.t)
            if s in self.sub(I, t) or any(T.tab[x][0] == "size" and x in self.sizes.get(l, ()) for x in self.sub(I, t)):
                self.say(I, st, n, "reads stay inside", True, "read of received bytes", "")
                continue
            up, lo, eq, div = self.limits(I, st, s)
            self.say(I, st, n, "reads stay inside", bool(lo or eq), "read of received bytes", "the number of bytes received has not been checked against the number read")

    def element(self, I, st, n, l, i):
        """Element i of the container at l."""
        T = I.T
        v = st.store.get(l)
        self.note(i.av)
        room = self.room(I, st, l)
        held = T.mk("size", v.t) if v is not None else None
        if I.isc(i.av)[0]:
            return
        k = T.tab[i.av.t]
        if k[0] == "op" and k[1] == "%" and (k[3] in (room, held) or k[3] in self.sizes.get(l, ()) or T.const(k[3])[0]):
            return
        if P in i.av.lab and i.av.t in self.peer:
            up, lo, eq, div = self.limits(I, st, i.av.t)
            good = any(x == room or x == held or x in self.sizes.get(l, ()) or T.const(x)[0] or room is not None and self.related(I, x, room) for x in up + eq)
            self.say(I, st, n, "indices are in range", good, "index the peer chose", "it has not been compared with the number of elements")
            return
        # a loop that runs to a number the peer chose
        up = [T.tab[c][2] for c, v in st.conds.items() if v and T.tab[c][0] == "<" and T.tab[c][1] == i.av.t]
        if any(x == room or x == held or x in self.sizes.get(l, ()) for x in up):
            return
        for x in up:
            if x in self.peer and T.tab[x][0] != "c" and (room is not None or held is not None):
                if room is not None and self.related(I, x, room) or held is not None and held in self.sub(I, x):
                    ok = True
                else:
                    u2, l2, e2, _ = self.limits(I, st, x)
                    ok = any(y in (room, held) or T.const(y)[0] or held in self.sub(I, y) or room is not None and self.related(I, y, room) for y in u2 + e2)
                self.say(I, st, n, "indices are in range", ok, "loop up to a number the peer chose", "the number of elements has not been compared with it")

    def idx(self, I, st, n, b, i):
        self.note(b.av)
        if b.av.ref:
            for l in self.owner(I, st, b):
                v = st.store.get(l)
                if v is not None and BYTES in v.lab and self.direct(I, n["b"]) and self.room(I, st, l) is None and not self.own(I, l):
                    s = I.T.mk("size", v.t)
                    up, lo, eq, div = self.limits(I, st, s)
                    ok = bool(lo or eq) or any(s in self.sub(I, x) for x in self.limits(I, st, i.av.t)[0])
                    self.say(I, st, n, "reads stay inside", ok, "element of received bytes", "the number of bytes received has not been checked")
                else:
                    self.element(I, st, n, l, i)

    def binop(self, I, st, n, a, b):
        self.note(a.av)
        self.note(b.av)
        if n["op"] in ("/", "%") and P in b.av.lab and not I.isc(b.av)[0]:
            t = b.av.t
            x = t
            while I.T.tab[x][0] in ("size", "."):
                x = I.T.tab[x][1]
            if x != t and I.T.tab[x][0] == "ctor":
                return          # the size of something an object of our own holds, not the number the object was made from
            v = [st.conds.get(c) for c in (I.cmp("==", t, I.T.c(0)),)]
            up, lo, eq, div = self.limits(I, st, t)
            ok = v[0] is False or bool(lo or eq)
            for x in self.seeds(I, t):
                up, lo, eq, div = self.limits(I, st, x)
                ok = ok or bool(lo or eq) or st.conds.get(I.cmp("==", x, I.T.c(0))) is False
            self.say(I, st, n, "divisors are not zero", ok, "division by a number the peer chose", "it may be zero")

    def load(self, I, st, loc, n):
        v = st.store.get(loc)
        if v is not None:
            self.note(v)

    def write(self, I, st, loc, rv, n):
        self.note(rv.av)
        if loc[:1] == SELF[:1] and len(loc) > 1 and isinstance(loc[1], str) and P in I.deep(st, rv):
            self.fields.add(loc[1])

    def special(self, I, st, n, b, cls, m, obj, args):
        for a in args:
            self.note(a.av)
        f = I.P.fns.get(n.get("u"))
        if f is not None and f.u not in self.sources and f.d.get("body") and self.no_inline(I, f) and n["k"] == "call" and I.ty(n["t"]).get("int"):
            return [(st, RV(I.fresh("computed"), None))]
        if obj is not None:
            self.note(obj.av)
        bb = re.sub(r"<.*", "", b) if "operator<" not in b else b
        if b in COPY and len(args) >= 3:
            self.copy(I, st, n, args)
            return None
        c = cls.partition("<")[0]
        sig = (n.get("f") or "").rpartition("::")[0]
        if c == "std::function" and m == "operator()" and not I.dry:
            for i, a in enumerate(args):
                ls = list(a.av.ref) + ([a.loc] if a.loc is not None else [])
                vs = [(k, v) for l in ls for k, v in st.store.items() if k[:len(l)] == l and "[]" in k[len(l):]]
                if any(P in v.lab and not self.bounded(I, st, k, v) for k, v in vs):
                    self.calls.setdefault(sig, set()).add(i)
        if n["k"] == "ctor" and c == "std::function" and sig in self.handed and args and args[0].av.clo:
            for clo in args[0].av.clo:
                vals = []
                for i, q in enumerate(clo.node.get("ps") or []):
                    l = (("h", I.fr.id, n.get("l"), "arg%d" % i),)
                    st.store[l] = I.fresh("arg")
                    if i in self.handed[sig]:
                        st.store[l + ("[]",)] = AV(I.T.fresh("handed"), frozenset([P]), (), ())
                        self.note(st.store[l + ("[]",)])
                    vals.append(RV(st.store[l], l))
                I.call_closures(n, st.copy(), args[0], vals)
            return None
        if n["k"] == "ctor" and c in VIEWS or bb in ("absl::MakeSpan", "absl::MakeConstSpan"):
            if len(args) >= 2 and args[0].av.ref and not args[1].av.ref:
                self.read(I, st, n, n["a"][0], args[0], args[1].av.t)
            return None
        if m == "operator[]" and obj is not None and args and c in INDEXED and obj.loc is not None:
            for l in ([obj.loc] if c in ("std::vector", "std::array") else [obj.loc] + [x[:-1] if x[-1:] == ("[]",) else x for x in obj.av.ref])[:1]:
                self.element(I, st, n, l, args[0])
            return None
        if m in ("size", "length") and obj is not None and obj.loc is not None:
            r = models.container(I, n, st, b, cls, m, obj, args)
            if r is None:
                return None
            out = []
            for s, rv in r:
                lab = rv.av.lab - {BYTES}
                if c == "absl::Span" and obj.av.ref:
                    lab = lab & {P} if any(P in I.rd(s, l).lab for l in self.owner(I, s, obj)) else E0
                self.sizes.setdefault(obj.loc, set()).add(rv.av.t)
                a = AV(rv.av.t, lab, (), ())
                self.note(a)
                out.append((s, RV(a, None)))
            return out
        if b in GATHER and b.rpartition("::")[2].startswith(("AllGather", "Gather")):
            l = (("h", I.fr.id, n.get("l"), "gathered"),)
            st.store[l] = I.fresh("gathered")
            st.store[l + ("[]",)] = I.fresh("gathered", frozenset([P, BYTES]))
            return [(st, RV(st.store[l], l))]
        if b in ("std::all_of", "std::any_of", "std::none_of") and len(args) == 3 and args[2].av.clo and args[0].av.ref:
            l = args[0].av.ref[0]
            out = []
            for s, rv in I.call_closures(n, st, args[2], [RV(I.rd(st, l), l)]):
                out.append((s, RV(AV(I.cmp("==", rv.av.t, I.T.c(0)), E0, (), ()) if b == "std::none_of" else rv.av, None)))
            return out
        g = n.get("u")
        if g in self.sources and (g != self.root.u):
            f = I.P.fns.get(g)
            if f is not None and self.no_inline(I, f):
                for i, a in enumerate(args):
                    if i in self.sources[g]:
                        for l in list(a.av.ref) + ([a.loc] if a.loc is not None else []):
                            st.store[l] = AV(I.T.fresh("recv"), frozenset([P]), (), ())
                            st.store.pop(l + ("@size",), None)
                            st.store.pop(l + ("[]",), None)
                l = (("h", I.fr.id, n.get("l"), "received"),)
                st.store[l] = I.fresh("received")
                for x in self.sources[g]:
                    if not isinstance(x, int):
                        st.store[l + x] = I.fresh("received", frozenset([P]))
                return [(st, RV(st.store[l], l))]
        return None


def run(cx):
    for r in ("copies fit", "reads stay inside", "indices are in range", "divisors are not zero"):
        cx.rule(r)
    p = cx.prog()
    fns = [f for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)) if f.d.get("body") and f.file.startswith("psi/") and not test(f) and "Moc" not in (f.cls or "")]
    users, todo = {}, []
    for f in fns:
        hit = False
        for n in fn_nodes(f):
            if n["k"] == "ctor" and n.get("c") == "std::function":
                users.setdefault(n.get("f", "").rpartition("::")[0], []).append(f)
            if n.get("u"):
                users.setdefault(n["u"], []).append(f)
            b = models.strip(n.get("f") or "")
            hit = hit or n.get("k") == "call" and (b in GATHER or b in ("yacl::link::Context::Recv", "yacl::link::Context::RecvInternal"))
        if hit:
            todo.append(f)
    sources, done, roots = {}, {}, 0
    fields, handed = {}, {}
    recvs = len(todo)
    rounds = 0
    while todo and rounds < 400:
        f = todo.pop(0)
        rounds += 1
        r, I, outs = judge(cx, p, f, sources, fields.get(f.cls, ()), handed)
        for sig, got in r.calls.items():
            if got - handed.get(sig, set()):
                handed.setdefault(sig, set()).update(got)
                todo += [g for g in users.get(sig, []) if g not in todo]
        done[f.u] = r.sites
        got = set()
        for st, rv in outs:
            if rv is not None:
                if P in rv.av.lab:
                    got.add(())
                for l in list(rv.av.ref) + ([rv.loc] if rv.loc is not None else []):
                    z = st.store.get(l + ("@size",))
                    if z is not None and I.known(st, I.cmp("==", z.t, I.T.c(0))):
                        continue
                    for x, a in st.store.items():
                        if x[:len(l)] == l and P in a.lab and not ("[]" in x[len(l):] and r.bounded(I, st, x, a)) and not any(str(y).startswith("@") for y in x[len(l):]):
                            got.add(x[len(l):])
            for i, q in enumerate(f.d["ps"]):
                t = f.T[q["t"]] if q["t"] >= 0 else {}
                if (t.get("ref") or t.get("ptr")) and not t.get("cref") and not t.get("cptr") and not t.get("s", "").startswith("const "):
                    for l in ((("p", q["n"] or str(i)),), (("p*", q["n"] or str(i)),)):
                        if any(P in a.lab for k, a in st.store.items() if k[:1] == l):
                            got.add(i)
        if got - sources.get(f.u, set()):
            sources.setdefault(f.u, set()).update(got)
            for u in [f.u] + [m for m in p.d_over(f.u)] if hasattr(p, "d_over") else [f.u]:
                todo += [g for g in users.get(u, []) if g not in todo]
        if f.cls and r.fields - fields.get(f.cls, set()):
            fields.setdefault(f.cls, set()).update(r.fields)
            todo += [g for g in fns if g.cls == f.cls and g not in todo and any(x.get("k") == "mem" and x.get("n") in fields[f.cls] for x in fn_nodes(g))]
    seen = {}
    for u, sites in done.items():
        for (w, rule, what), (good, why, chain) in sites.items():
            o = seen.get((w, rule, what))
            if o is None or o[0] and not good:
                seen[w, rule, what] = (good, why, p.fns[u].f, chain)
    for (w, rule, what), (good, why, fn, chain) in sorted(seen.items()):
        cx.check(good, rule, "%s: %s" % (fn, what), "%s: %s" % (what, why), w)
    cx.count("receiving functions", recvs)
    cx.count("functions interpreted", len(done))
    cx.count("sources", len(sources))
    cx.floor("functions that receive", recvs, 20)
    cx.floor("uses judged", len(seen), 20)
    cx.info = (sources, fields, done, handed)


def judge(cx, p, f, sources, fields, handed):
    r = R(f, sources, cx)
    r.handed = handed

    def setup(I, st):
        for x in fields:
            st.store[SELF + (x,)] = I.fresh(x, frozenset([P]))
    try:
        I, outs = analyse(p, r, f, None, setup, budget=300000)
    except Budget:
        r = R(f, sources, cx)
        r.handed = handed
        r.inline_max = 1
        I, outs = analyse(p, r, f, None, setup, budget=600000)
    return r, I, outs

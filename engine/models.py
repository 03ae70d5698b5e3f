"""Models of the standard library, yacl, protobuf and absl used by the abstract interpreter."""
import re
from ai import AV, RV, E0, SMART, VIEW, LOCKT, FUT, Clo

_c = {}


def strip(f):
    """Qualified name without template arguments."""
    r = _c.get(f)
    if r is not None:
        return r
    s = f
    op = ""
    i = s.find("operator")
    if i > 0 and s[i - 1] == ":" or i == 0:
        # cut at the last '::operator'
        j = s.rfind("::operator")
        if j >= 0:
            op = s[j:]
            s = s[:j]
        else:
            op, s = s, ""
    out, d = [], 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    r = "".join(out).replace("__gnu_cxx::__normal_iterator", "std::__iter") + op
    r = r.replace("std::basic_string_view", "std::string_view").replace("std::basic_string", "std::string")
    _c[f] = r
    return r


CONT = ("std::vector", "std::string", "std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::deque", "std::list", "std::queue",
        "std::array", "std::multimap", "std::unordered_multimap", "absl::Span", "std::string_view", "yacl::Buffer", "yacl::ByteContainerView", "std::priority_queue",
        "google::protobuf::RepeatedPtrField", "google::protobuf::RepeatedField", "std::stack", "std::span", "google::protobuf::Map", "absl::flat_hash_map", "absl::flat_hash_set", "google::dense_hash_map", "std::forward_list", "std::multiset")
ELEM = {"front", "back", "at", "top", "value", "operator[]", "begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "c_str", "find", "lower_bound", "upper_bound", "equal_range"}
PUSH = {"push_back", "emplace_back", "push", "push_front", "emplace_front", "emplace", "insert", "append", "assign", "try_emplace", "insert_or_assign", "Add", "operator+="}


def isbytes(c):
    return c in ("std::string", "std::string_view", "yacl::Buffer", "yacl::ByteContainerView")


def elem_loc(I, s, obj, cls):
    """Locations of the summarised elements of container-like value obj."""
    if cls in ("absl::Span", "std::span", "yacl::ByteContainerView", "std::string_view", "gsl::span"):
        base = list(obj.av.ref) or ([obj.loc] if obj.loc is not None else [(("d", obj.av.t),)])
    else:
        base = [obj.loc] if obj.loc is not None else [I.tmpof(s, obj)]
    out = []
    for l in base:
        out.append(l if (l[-1] == "[]" or isbytes(cls)) else l + ("[]",))
    return out


def fork(s, locs):
    for i, l in enumerate(locs):
        yield (s if i == len(locs) - 1 else s.copy()), l


def labs(I, s, vs):
    lab = E0
    for v in vs:
        lab = lab | I.deep(s, v)
    return lab


def ctor(I, n, s, l, c, vs):
    cs = strip(c)
    T = I.T
    if cs in SMART or cs in ("std::__shared_ptr",):
        if vs:
            a = vs[0].av
            s.store[l] = AV(a.t, a.lab, a.ref, a.clo)
            return [(s, RV(s.store[l], l))]
        s.store[l] = I.cst(0)
        return [(s, RV(s.store[l], l))]
    if cs.startswith("std::function") or cs.startswith("std::packaged_task"):
        if vs:
            s.store[l] = vs[0].av
            return [(s, RV(vs[0].av, l))]
        return None
    if cs in VIEW or cs in ("std::string_view", "absl::Span", "std::reference_wrapper", "yacl::ByteContainerView"):
        if vs:
            v = vs[0]
            # view of a container, or (pointer, length)
            if v.av.ref and (v.loc is None or len(vs) > 1):
                ref = v.av.ref
            elif v.loc is not None and not v.av.ref:
                ref = (v.loc,)
            else:
                ref = v.av.ref
            t = v.av.t if len(vs) == 1 else T.mk("view", v.av.t, vs[1].av.t)
            av = AV(t, labs(I, s, vs[:1]), ref, ())
            s.store[l] = av
            if len(vs) > 1:
                s.store[l + ("@size",)] = vs[1].av
            return [(s, RV(av, l))]
        s.store[l] = I.fresh("view")
        return [(s, RV(s.store[l], l))]
    if cs.startswith(LOCKT) or cs in LOCKT:
        if not vs:
            s.store[l] = I.fresh("lock")
            return [(s, RV(s.store[l], l))]
        defer = len(vs) > 1 and "defer" in str(n["a"][1])[:400]
        if len(vs) > 1 and cs != "std::scoped_lock" and "try_to_lock" in str(n["a"][1])[:400]:
            m = vs[0].loc if vs[0].loc is not None else (vs[0].av.ref[0] if vs[0].av.ref else None)
            s.store[l] = AV(T.mk("lock", m), E0, (m,) if m else (), ())
            s2 = s.copy()
            if m is not None:
                I.lockkind[(m, l)] = "shared" if cs == "std::shared_lock" else "excl"
                I.R.lock(I, s, m, n)
                s.locks = s.locks + ((m, l),)
            return [(s, RV(s.store[l], l)), (s2, RV(s2.store[l], l))]
        for v in (vs if cs == "std::scoped_lock" else vs[:1]):
            m = v.loc if v.loc is not None else (v.av.ref[0] if v.av.ref else None)
            s.store[l] = AV(T.mk("lock", m), E0, (m,) if m else (), ())
            if m is not None and not defer:
                I.lockkind[(m, l)] = "shared" if cs in ("std::shared_lock", "seal::util::ReaderLock", "absl::ReaderMutexLock") else "excl"
                I.R.lock(I, s, m, n)
                s.locks = s.locks + ((m, l),)
        return [(s, RV(s.store[l], l))]
    if cs == "std::string":
        if vs:
            v = vs[0]
            lab = labs(I, s, vs)
            if len(vs) == 1 or (len(vs) == 2 and "allocator" in str(n.get("pt") and I.ty(n["pt"][-1]).get("s", ""))):
                s.store[l] = AV(v.av.t, lab, (), ())
            else:
                s.store[l] = AV(T.mk("str", tuple(x.av.t for x in vs)), lab, (), ())
            return [(s, RV(s.store[l], l))]
        s.store[l] = I.cst("")
        return [(s, RV(s.store[l], l))]
    if cs in CONT or cs == "std::__iter":
        if cs == "std::__iter":
            if vs:
                return [(s, vs[0])]
            return None
        pt = [I.ty(x) for x in (n.get("pt") or [])]
        I.kill(s, l)
        s.store[l] = AV(T.fresh("new " + cs), E0, (), ())
        if vs:
            if len(vs) >= 2 and vs[0].av.ref and vs[1].av.ref and cs != "yacl::Buffer":
                # iterator range
                for e in vs[0].av.ref:
                    I.wr(s, l + ("[]",), RV(I.rd(s, e), e), weak=True)
                s.store[l] = AV(s.store[l].t, vs[0].av.lab, (), ())
            elif cs == "yacl::Buffer":
                lab = labs(I, s, vs)
                s.store[l] = AV(T.mk("buf", tuple(x.av.t for x in vs)), lab, (), ())
                if pt and pt[0].get("int"):
                    s.store[l] = AV(T.fresh("buf"), E0, (), ())
                    s.store[l + ("@size",)] = vs[0].av
                elif len(vs) > 1 and pt and len(pt) > 1 and pt[1].get("int"):
                    s.store[l + ("@size",)] = vs[1].av
            elif pt and pt[0].get("int") and not pt[0].get("ref"):
                # (count[, value])
                s.store[l + ("@size",)] = vs[0].av
                if len(vs) > 1 and len(pt) > 1 and pt[1].get("ref"):
                    I.wr(s, l + ("[]",), vs[1], weak=True)
            elif vs[0].loc is not None and (n["a"][0]["k"] in ("init",)):
                I.wr(s, l, vs[0])
            else:
                lab = labs(I, s, vs)
                I.wr(s, l, vs[0])
                a = s.store[l]
                s.store[l] = AV(a.t, a.lab | lab, a.ref, a.clo)
        else:
            s.store[l + ("@size",)] = I.cst(0) if cs != "std::array" else I.fresh()
        return [(s, RV(s.store[l], l))]
    if cs in ("std::optional", "std::pair", "std::tuple") and vs:
        I.kill(s, l)
        if cs == "std::optional":
            I.wr(s, l, vs[0])
            return [(s, RV(s.store[l], l))]
        s.store[l] = AV(T.mk("agg", tuple(v.av.t for v in vs)), E0, (), ())
        names = ("first", "second") if cs == "std::pair" else ["#%d" % i for i in range(len(vs))]
        if len(vs) == 1 or len(vs) > len(names):
            return None
        for nm, v in zip(names, vs):
            I.wr(s, l + (nm,), v)
        return [(s, RV(s.store[l], l))]
    if cs == "std::atomic" or cs == "std::__atomic_base":
        s.store[l] = vs[0].av if vs else I.fresh("atomic")
        return [(s, RV(s.store[l], l))]
    if cs.startswith("yacl::ScopeGuard") or cs.endswith("ScopeGuard"):
        if vs:
            s.store[l] = vs[0].av
            return [(s, RV(s.store[l], l))]
    if cs.startswith("std::thread") and vs:
        return spawn(I, n, s, l, vs[0], vs[1:], "std::thread")
    return None


def unref(I, s, v):
    """Value of a decayed argument."""
    return RV(v.av, v.loc)


def spawn(I, n, s, l, fn, args, how):
    """std::async / enqueue: the body runs between launch and join.  Its preconditions are those at launch; facts it
    establishes only hold after the join."""
    hook = getattr(I.R, "spawn", None)
    f0, lk0 = s.facts, s.locks
    outs = []
    s.locks = ()
    save = getattr(I, "async_depth", 0)
    I.async_depth = save + 1
    try:
        if fn.av.clo:
            res = I.call_closures(n, s, fn, args)
        else:
            res = I.opaque(n, s, how, None, [fn] + list(args))
    finally:
        I.async_depth = save
    fut_t = I.T.fresh("future")
    for s2, rv in res:
        gained = s2.facts - f0
        lost = f0 - s2.facts
        s2.facts = s2.facts if getattr(I.R, "async_eager", False) else f0 - lost
        s2.locks = lk0
        ll = l if l is not None else I.tmp("fut")
        ctr = I.T.mk("fut", tuple(sorted(map(repr, gained))) and I.T.mk("s0", repr(sorted(map(repr, gained)))), rv.av.t)
        s2.store[ll] = AV(fut_t, E0, (), ())
        vl = ll + ("@val",)
        I.wr(s2, vl, rv)
        PEND[fut_t] = PEND.get(fut_t, E0)
        g = s2.store.get(ll + ("@gain",))
        s2.store[ll + ("@gain",)] = AV(I.T.mk("gain", gained), E0, (), ())
        outs.append((s2, RV(s2.store[ll], ll)))
    if hook:
        for s2, rv in outs:
            hook(I, s2, n, rv)
    return outs


PEND = {}


def join_future(I, s, obj):
    """future.get(): facts gained by the task become visible."""
    gain = []
    if obj.loc is not None:
        for k, v in [(k, v) for k, v in list(s.store.items()) if k[:len(obj.loc)] == obj.loc and k[-1] == "@gain"]:
            k2 = I.T.tab[v.t]
            todo = [v.t]
            while todo:
                x = I.T.tab[todo.pop()]
                if x[0] == "gain":
                    gain.extend(x[1])
                elif x[0] == "phi":
                    pass
    if gain:
        s.facts = s.facts | frozenset(gain)
    h = getattr(I.R, "joined", None)
    if h:
        h(I, s, obj)
    if obj.loc is not None:
        vl = obj.loc + ("@val",)
        if vl in s.store:
            return RV(s.store[vl], vl)
    return RV(I.fresh("future.get", obj.av.lab), None)


def call(I, n, s, f, obj, args):
    b = strip(f)
    T = I.T
    k = b.rfind("::")
    cls, m = (b[:k], b[k + 2:]) if k >= 0 else ("", b)
    if n.get("pb") and obj is not None:
        return proto(I, n, s, m, obj, args)
    if n["k"] == "opcall":
        r = opcall(I, n, s, b, cls, m, obj, args)
        if r is not None:
            return r
    if f.startswith("std::numeric_limits<") and m in ("max", "min", "lowest"):
        w = {"unsigned int": (32, 0), "unsigned long": (64, 0), "unsigned long long": (64, 0), "unsigned short": (16, 0), "unsigned char": (8, 0), "int": (31, 1), "long": (63, 1),
             "long long": (63, 1), "short": (15, 1), "signed char": (7, 1), "char": (7, 1)}.get(f[20:f.rfind(">")])
        if w:
            return [(s, RV(I.cst((1 << w[0]) - 1 if m == "max" else -(1 << w[0]) if w[1] else 0), None))]
    if b in PUREFN or cls in ("spdlog::logger", "spdlog", "fmt", "fmt::detail"):
        return [(s, RV(AV(T.mk("call", b, -1, tuple(a.av.t for a in args)), labs(I, s, args), (), ()), None))]
    if b in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::decay_copy", "absl::implicit_cast", "std::addressof") and args:
        if b == "std::addressof":
            return [(s, RV(AV(T.mk("&", args[0].loc), E0, (args[0].loc,) if args[0].loc is not None else (), ()), None))]
        return [(s, args[0])]
    if b in ("std::make_shared", "std::make_unique") and n.get("ta"):
        t = I.ty(n["ta"][0]) if isinstance(n["ta"][0], int) else {}
        rec = t.get("rec")
        l = (("h", I.fr.id, n["l"], rec or t.get("s")),)
        if rec:
            I.kill(s, l)
            fn = find_ctor(I, rec, args)
            s.store[l + ("@cls",)] = I.cst(rec)
            r = I.R.call(I, s, n, "ctor:" + rec, RV(I.rd(s, l), l), args)
            if r is not None:
                return [(x, RV(AV(T.mk("&", l), E0, (l,), ()), None)) for x, _ in r]
            if fn and I.can_inline(fn):
                s.store[l] = AV(T.fresh("obj " + rec), E0, (), ())
                s.store[l + ("@cls",)] = I.cst(rec)
                outs = [x for x, _ in I.invoke(fn, s, l, args, n)]
            else:
                r = I.ctor_v({"k": "ctor", "l": n["l"], "a": [], "pt": [], "t": n["ta"][0]}, s, l, rec, None, args) if not args or strip(rec) not in CONT else ctor(I, {"a": [{"k": "x"}] * len(args), "pt": (find_pt(I, n) or []), "l": n["l"]}, s, l, rec, args) or [(s, None)]
                outs = [x for x, _ in r]
            return [(x, RV(AV(T.mk("&", l), E0, (l,), ()), None)) for x in outs]
        lab = labs(I, s, args)
        if args:
            I.wr(s, l, args[0])
        return [(s, RV(AV(T.mk("&", l), lab, (l,), ()), None))]
    if cls in SMART or cls == "std::__shared_ptr":
        if m == "get":
            return [(s, RV(AV(obj.av.t, obj.av.lab, obj.av.ref, ()), None))]
        if m == "reset":
            v = args[0] if args else RV(I.cst(0), None)
            if obj.loc is not None:
                I.wr(s, obj.loc, v, n)
            return [(s, RV(I.fresh("void"), None))]
        if m in ("release", "lock"):
            return [(s, RV(obj.av, None))]
        if m in ("operator*",):
            l = I.deref_smart(s, obj)
            return [(x, RV(I.rd(x, q), q)) for x, q in fork(s, l)]
    if b in ("std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast"):
        return [(s, RV(args[0].av, None))]
    if b == "std::get" and args:
        i = n["ta"][0] if n.get("ta") and isinstance(n["ta"][0], int) else None
        v = args[0]
        base = v.loc if v.loc is not None else I.tmpof(s, v)
        t = "first" if i == 0 else "second"
        nm = "#%s" % i
        if base + (t,) in s.store:
            nm = t
        elif base + ("#%s" % i,) not in s.store and "std::pair" in str([I.ty(x).get("s") for x in n.get("pt", [])]):
            nm = t
        l = base + (nm,)
        return [(s, RV(I.rd(s, l), l))]
    if b in ("std::make_pair", "std::make_tuple", "std::tie", "std::forward_as_tuple"):
        l = I.tmp()
        s.store[l] = AV(T.mk("agg", tuple(v.av.t for v in args)), E0, (), ())
        names = ("first", "second") if b == "std::make_pair" else ["#%d" % i for i in range(len(args))]
        for nm, v in zip(names, args):
            if b == "std::tie" and v.loc is not None:
                s.store[l + (nm,)] = AV(T.mk("tie", v.loc), E0, (), ())
            I.wr(s, l + (nm,), v)
        if b == "std::tie":
            TIES[l] = [v.loc for v in args]
        return [(s, RV(s.store[l], l))]
    if b in ("std::async",):
        fn, rest = args[0], list(args[1:])
        if not fn.av.clo and rest and (I.isc(fn.av)[0] or rest[0].av.clo):
            fn, rest = rest[0], rest[1:]
        return spawn(I, n, s, None, fn, rest, "std::async")
    if m in ("enqueue",) and args and args[0].av.clo:
        return spawn(I, n, s, None, args[0], args[1:], "enqueue")
    if cls in ("std::future", "std::shared_future", "std::__basic_future"):
        if m in ("get", "wait"):
            return [(s, join_future(I, s, obj))]
        return None
    if b in ("yacl::parallel_for",) and args:
        fn = args[-1]
        if fn.av.clo:
            hook = getattr(I.R, "parallel", None)
            # may run zero or more times, concurrently
            s0 = s.copy()
            lk0 = s.locks
            pl = I.T.fresh("par")
            begin = RV(I.fresh("begin"), None)
            end = RV(I.fresh("end"), None)
            save = getattr(I, "async_depth", 0)
            I.async_depth = save + 1
            try:
                I.assume(s, I.T.mk("<", begin.av.t, end.av.t), True)
                res = I.call_closures(n, s, fn, [begin, end])
            finally:
                I.async_depth = save
            return [(x, RV(I.fresh("void"), None)) for x, _ in res]
    if cls in CONT:
        return container(I, n, s, b, cls, m, obj, args)
    if cls in ("std::optional",):
        if m in ("value", "operator*", "value_or"):
            return [(s, obj)]
        if m == "has_value":
            return [(s, RV(AV(T.mk("has", obj.av.t), E0, (), ()), None))]
        if m == "reset":
            I.touch(s, obj.loc)
            return [(s, RV(I.fresh(), None))]
    if cls in ("std::atomic", "std::__atomic_base"):
        if m in ("load",):
            return [(s, RV(obj.av, None))]
        if m in ("store", "exchange"):
            old = obj.av
            I.wr(s, obj.loc, args[0], n)
            return [(s, RV(old, None))]
        old = obj.av
        I.wr(s, obj.loc, RV(I.fresh("atomic", old.lab | labs(I, s, args)), None), n)
        return [(s, RV(old, None))]
    if cls.startswith("std::unique_lock") or cls.startswith("std::shared_lock"):
        if m == "unlock":
            s.locks = tuple(x for x in s.locks if x[1] != obj.loc)
            return [(s, RV(I.fresh(), None))]
        if m in ("owns_lock", "operator bool") and obj.loc is not None:
            return [(s, RV(I.cst(1 if any(x[1] == obj.loc for x in s.locks) else 0), None))]
        if m == "try_lock" and obj.av.ref:
            s2 = s.copy()
            I.lockkind[(obj.av.ref[0], obj.loc)] = "shared" if cls.startswith("std::shared_lock") else "excl"
            s.locks = s.locks + ((obj.av.ref[0], obj.loc),)
            return [(s, RV(I.cst(1), None)), (s2, RV(I.cst(0), None))]
        if m == "lock":
            mm = obj.av.ref[0] if obj.av.ref else None
            if mm is not None:
                I.lockkind[(mm, obj.loc)] = "shared" if cls.startswith("std::shared_lock") else "excl"
                I.R.lock(I, s, mm, n)
                s.locks = s.locks + ((mm, obj.loc),)
            return [(s, RV(I.fresh(), None))]
    if cls in ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex", "std::shared_timed_mutex", "absl::Mutex"):
        if m in ("lock", "lock_shared", "Lock", "ReaderLock") and obj.loc is not None:
            I.lockkind[(obj.loc, ("raw",) + obj.loc)] = "shared" if m in ("lock_shared", "ReaderLock") else "excl"
            I.R.lock(I, s, obj.loc, n)
            s.locks = s.locks + ((obj.loc, ("raw",) + obj.loc),)
            return [(s, RV(I.fresh(), None))]
        if m in ("unlock", "unlock_shared", "Unlock", "ReaderUnlock") and obj.loc is not None:
            s.locks = tuple(x for x in s.locks if x[0] != obj.loc)
            return [(s, RV(I.fresh(), None))]
    if b in ("memcpy", "memmove", "std::memcpy", "std::memmove") and len(args) >= 2:
        src = RV(AV(args[1].av.t, args[1].av.lab, args[1].av.ref, ()), None)
        lab = I.deep(s, src)
        for d in args[0].av.ref:
            a = I.rd(s, d)
            s.store[d] = AV(T.fresh("memcpy"), a.lab | lab, a.ref, a.clo)
            I.R.write(I, s, d, RV(s.store[d], None), n)
        return [(s, RV(args[0].av, None))]
    if b in ("memset", "std::memset"):
        for d in args[0].av.ref:
            I.R.write(I, s, d, RV(I.fresh(), None), n)
        return [(s, RV(args[0].av, None))]
    if b in ("std::min", "std::max") and len(args) == 2:
        ca, cb = I.isc(args[0].av), I.isc(args[1].av)
        if ca[0] and cb[0] and isinstance(ca[1], int) and isinstance(cb[1], int):
            return [(s, RV(I.cst(min(ca[1], cb[1]) if b.endswith("min") else max(ca[1], cb[1])), None))]
        x, y = sorted((args[0].av.t, args[1].av.t))
        return [(s, RV(AV(T.mk("call", b, -1, (x, y)), args[0].av.lab | args[1].av.lab, (), ()), None))]
    if b in ("std::copy", "std::copy_n", "std::move_backward", "std::transform", "std::copy_if", "std::set_intersection", "std::back_insert_iterator") and args:
        clos = [a for a in args if a.av.clo]
        lab = labs(I, s, [RV(a.av, None) for a in args[:2]])
        outs = [(s, RV(I.fresh("algo", lab), None))]
        res = lab
        if clos:
            elems = []
            src = args[0]
            el = [RV(I.rd(s, r), r) for r in src.av.ref[:1]] or [RV(I.fresh("el", lab), None)]
            el = el * 2
            np = len(clos[0].av.clo[0].node["ps"]) if clos[0].av.clo[0].node is not None else 1
            outs = I.call_closures(n, s, clos[0], el[:np] if np <= 2 else el[:1])
        final = []
        dst = [a for a in args[2:] if a.av.ref] or ([args[-1]] if args[-1].av.ref else [])
        for x, rv in outs:
            v = rv if clos and b == "std::transform" else None
            for d in (dst[-1].av.ref if dst else ()):
                if d[-1:] == ("[]",):
                    I.bump(x, d[:-1])
                if v is not None:
                    I.wr(x, d, v, n, weak=True)
                else:
                    for r in args[0].av.ref:
                        I.wr(x, d, RV(I.rd(x, r), r), n, weak=True)
            final.append((x, RV(AV(T.fresh("it"), lab, dst[-1].av.ref if dst else (), ()), None)))
        return final
    if b in ("std::back_inserter", "std::inserter", "std::make_move_iterator", "std::next", "std::prev", "std::begin", "std::end", "std::cbegin") and args:
        v = args[0]
        if b in ("std::back_inserter", "std::inserter", "std::begin", "std::end", "std::cbegin"):
            l = v.loc if v.loc is not None else I.tmpof(s, v)
            return [(s, RV(AV(T.mk("it", v.av.t), v.av.lab, (l + ("[]",),), ()), None))]
        return [(s, RV(AV(T.mk("it", v.av.t), v.av.lab, v.av.ref, ()), None))]
    if b in ("absl::MakeSpan", "absl::MakeConstSpan") and args:
        v = args[0]
        if v.av.ref and (v.loc is None or len(args) > 1):
            ref = v.av.ref
        elif v.loc is not None:
            ref = v.av.ref or (v.loc,)
        else:
            ref = v.av.ref
        t = v.av.t if len(args) == 1 else T.mk("view", v.av.t, args[1].av.t)
        l = I.tmp()
        s.store[l] = AV(t, labs(I, s, args[:1]), ref, ())
        if len(args) > 1:
            s.store[l + ("@size",)] = args[1].av
        return [(s, RV(s.store[l], l))]
    if b == "std::bind" and args and args[0].av.clo:
        c = args[0].av.clo[0]
        if c.fn is not None:
            return [(s, RV(AV(T.fresh("bind"), E0, (), (Clo(None, c.T, None, None, None, fn=c.fn, bound=tuple(args[1:])),)), None))]
        return [(s, args[0])]
    if b in ("std::for_each", "std::sort", "std::stable_sort", "std::find_if", "std::any_of", "std::all_of", "std::none_of", "std::call_once", "std::invoke", "std::remove_if", "std::count_if", "std::generate", "std::accumulate") and any(a.av.clo for a in args):
        fn = [a for a in args if a.av.clo][0]
        src = args[0]
        c = fn.av.clo[0]
        np = len(c.node["ps"]) if c.node is not None else 0
        if b in ("std::call_once", "std::invoke"):
            rest = args[args.index(fn) + 1:]
            return I.call_closures(n, s, fn, rest)
        el = [RV(I.rd(s, r), r) for r in src.av.ref[:1]] or [RV(I.fresh("el", I.deep(s, src)), None)]
        if b == "std::accumulate":
            el = [args[2], el[0]]
        elif np == 0:
            el = []
        else:
            el = (el * 2)[:np]
        s0 = s.copy()
        outs = I.call_closures(n, s, fn, el)
        lab = labs(I, s0, args)
        pure = b in ("std::find_if", "std::any_of", "std::all_of", "std::none_of", "std::count_if")
        once = b == "std::for_each" and getattr(I.R, "rfor_atleast", False)
        return [(x, RV(AV(T.fresh(b), lab, args[0].av.ref if b in ("std::find_if", "std::remove_if") else (), ()), None)) for x in I.merge([y for y, _ in outs] + ([] if once else [s0]))]
    if b in ("std::current_exception",):
        return [(s, RV(I.fresh("exc"), None))]
    if b in ("std::rethrow_exception",):
        I.thrown(s)
        return []
    if b in ("exit", "abort", "_exit", "std::terminate", "std::abort", "std::exit"):
        h = getattr(I.R, "exits", None)
        if h:
            h(I, s, n, b)
        return []
    return None


TIES = {}


def tie_assign(I, s, dsts, v):
    src = v.loc
    for i, d in enumerate(dsts):
        if d is None:
            continue
        if src is None:
            I.wr(s, d, RV(I.fresh("tied", v.av.lab), None))
            continue
        nm = "#%d" % i
        if i < 2 and not any(k[:len(src) + 1] == src + (nm,) for k in s.store):
            nm = ("first", "second")[i]
        I.wr(s, d, RV(I.rd(s, src + (nm,)), src + (nm,)))
PUREFN = {"fmt::format", "fmt::join", "yacl::EnforceMsg", "std::to_string", "absl::StrCat", "std::stoi", "std::stoull", "std::stoul", "std::filesystem::exists", "std::filesystem::temp_directory_path",
          "std::string_view::operator==", "absl::StrJoin", "absl::StrSplit", "absl::BytesToHexString", "absl::Base64Escape", "absl::HexStringToBytes", "std::strlen", "strlen", "std::distance", "std::filesystem::path::path", "absl::BytesToHexString",
          "memcmp", "std::memcmp", "std::isnan", "std::isinf", "yacl::CheckNotNull"}


def find_pt(I, n):
    return None


def find_ctor(I, rec, args):
    nm = rec.split("<")[0].split("::")[-1]
    c = [f for f in I.P.byname.get("%s::%s" % (rec, nm), []) if f.d.get("ctor")]
    ok = [f for f in c if len(f.d["ps"]) == len(args)]
    if len(ok) == 1:
        return ok[0]
    if ok:
        # choose by const-ness/reference shape: first declared
        return ok[0]
    ok = [f for f in c if len(f.d["ps"]) > len(args)]
    if not ok and not c and not args and rec in I.P.classes:
        # implicit default constructor: the bases' ones run
        k = I.P.classes[rec]
        for b in k["bases"]:
            r = find_ctor(I, k["_T"][b].get("rec", ""), [])
            if r is not None:
                return r
    return ok[0] if ok else None


def opcall(I, n, s, b, cls, m, obj, args):
    T = I.T
    op = n["op"]
    if op == "=" and obj is None:
        return None
    if op in ("==", "!=", "<", ">", "<=", ">="):
        a = ([obj] if obj is not None else []) + list(args)
        fn = I.P.fns.get(n.get("u"))
        if len(a) == 2 and (fn is None):
            return [(s, RV(AV(I.cmp(op, a[0].av.t, a[1].av.t), a[0].av.lab | a[1].av.lab, (), ()), None))]
        return None
    if op == "<<" or op == ">>":
        a = ([obj] if obj is not None else []) + list(args)
        fn = I.P.fns.get(n.get("u"))
        if len(a) == 2 and fn is None and a[0].loc is not None:
            if op == "<<":
                lab = I.deep(s, a[1])
                av = I.rd(s, a[0].loc)
                s.store[a[0].loc] = AV(T.fresh("stream"), av.lab | lab, av.ref, av.clo)
                h = getattr(I.R, "stream_out", None)
                if h:
                    h(I, s, n, a[0], a[1])
            else:
                if a[1].loc is not None:
                    I.wr(s, a[1].loc, RV(I.fresh("in", I.deep(s, a[0])), None), n)
            return [(s, RV(I.rd(s, a[0].loc), a[0].loc))]
        return None
    if op == "*" and len(args) == 0 and obj is not None or (op == "*" and obj is None and len(args) == 1):
        v = obj if obj is not None else args[0]
        if I.P.fns.get(n.get("u")):
            return None
        if strip(n["f"]).startswith("std::optional"):
            return [(s, v)]
        ls = I.deref_smart(s, v)
        return [(x, RV(I.rd(x, l), l)) for x, l in fork(s, ls)]
    if op == "[]":
        v = obj if obj is not None else args[0]
        if I.P.fns.get(n.get("u")):
            return None
        idx = args[0] if obj is not None else args[1]
        if cls in CONT:
            h = getattr(I.R, "index", None)
            if h:
                h(I, s, n, cls, v, idx)
            ls = elem_loc(I, s, v, cls)
            if "map" in cls and v.loc is not None:
                # operator[] may insert
                kl = v.loc + ("[]", "first")
                if kl in s.store or I.deep(s, idx):
                    I.wr(s, kl, idx, weak=True)
                ls = [l + ("second",) for l in ls]
            return [(x, RV(AV(I.rd(x, l).t if "[]" not in l else T.mk("el", v.av.t, idx.av.t), I.rd(x, l).lab, I.rd(x, l).ref, I.rd(x, l).clo), l)) for x, l in fork(s, ls)]
        if cls in SMART or cls == "std::unique_ptr":
            ls = [l if l[-1] == "[]" else l + ("[]",) for l in I.deref_smart(s, v)]
            return [(x, RV(I.rd(x, l), l)) for x, l in fork(s, ls)]
        return None
    if op == "+" and obj is None and len(args) == 2 and b.startswith("std::operator"):
        lab = labs(I, s, args)
        return [(s, RV(AV(T.mk("cat", args[0].av.t, args[1].av.t), lab, (), ()), None))]
    if op in ("++", "--") and obj is not None and I.P.fns.get(n.get("u")) is None:
        if obj.av.ref or "iter" in b:
            return [(s, RV(AV(T.fresh("it"), obj.av.lab, obj.av.ref, ()), obj.loc))] if not obj.loc else [(_w(I, s, obj), RV(I.rd(s, obj.loc), obj.loc))]
        if "atomic" in b:
            old = obj.av
            I.wr(s, obj.loc, RV(I.fresh("atomic", old.lab), None), n)
            return [(s, RV(I.fresh("atomic", old.lab), None))]
    if op in ("+", "-") and obj is not None and obj.av.ref and len(args) == 1 and I.P.fns.get(n.get("u")) is None:
        return [(s, RV(AV(T.mk("op", op, obj.av.t, args[0].av.t), obj.av.lab, obj.av.ref, ()), None))]
    if op in ("+=", "-=") and obj is not None and "atomic" in b:
        I.wr(s, obj.loc, RV(I.fresh("atomic", obj.av.lab | labs(I, s, args)), None), n)
        return [(s, RV(I.fresh("atomic"), None))]
    if op == "/" and len(args) == 2 and b.startswith("std::filesystem"):
        lab = labs(I, s, args)
        return [(s, RV(AV(T.mk("path/", args[0].av.t, args[1].av.t), lab, (), ()), None))]
    if op == "()" and obj is not None and obj.av.clo:
        return I.call_closures(n, s, obj, args)
    return None


def _w(I, s, obj):
    a = I.rd(s, obj.loc)
    s.store[obj.loc] = AV(I.T.fresh("it"), a.lab, a.ref, a.clo)
    return s


def container(I, n, s, b, cls, m, obj, args):
    T = I.T
    if obj is None:
        return None
    if m in ("size", "length", "size_in_bytes"):
        sz = s.store.get(obj.loc + ("@size",)) if obj.loc is not None else None
        if sz is not None:
            return [(s, RV(AV(sz.t, sz.lab, (), ()), None))]
        if cls in VIEW or cls in ("absl::Span", "std::string_view", "yacl::ByteContainerView"):
            for l in obj.av.ref[:1]:
                z = s.store.get(l + ("@size",))
                if z is not None and l[-1] != "[]" and T.tab[obj.av.t][0] != "view":
                    return [(s, RV(AV(z.t, z.lab, (), ()), None))]
        k = T.tab[obj.av.t]
        if k[0] == "view":
            return [(s, RV(AV(k[2], E0, (), ()), None))]
        return [(s, RV(AV(T.mk("size", obj.av.t), obj.av.lab if getattr(I.R, "sizelab", True) else E0, (), ()), None))]
    if m == "empty":
        r = container(I, n, s, b, cls, "size", obj, [])[0][1]
        return [(s, RV(AV(I.cmp("==", r.av.t, T.c(0)), r.av.lab, (), ()), None))]
    if m in ("front", "back", "at", "top", "operator[]", "Get", "Mutable"):
        h = getattr(I.R, "index", None)
        if h and m == "at":
            pass
        ls = elem_loc(I, s, obj, cls)
        if "map" in cls and m == "at":
            ls = [l + ("second",) for l in ls]
        if m == "Mutable":
            return [(s, RV(AV(T.mk("&", ls[0]), E0, tuple(ls), ()), None))]
        return [(x, RV(I.rd(x, l), l)) for x, l in fork(s, ls)]
    if m in ("begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "c_str", "find", "lower_bound", "upper_bound"):
        if m == "find" and cls in ("std::string", "std::string_view"):
            return [(s, RV(AV(T.mk("call", m, obj.av.t, tuple(a.av.t for a in args)), obj.av.lab, (), ()), None))]
        ls = elem_loc(I, s, obj, cls)
        t = T.mk("it", m, obj.av.t, tuple(a.av.t for a in args))
        if m in ("data", "c_str") and cls not in ("std::vector", "std::array"):
            t = T.mk("data", obj.av.t)
        return [(s, RV(AV(t, obj.av.lab, tuple(ls), ()), None))]
    if m in PUSH:
        if obj.loc is None:
            return [(s, RV(I.fresh(), None))]
        lab = labs(I, s, args)
        if isbytes(cls):
            I.touch(s, obj.loc, lab, "append")
            I.R.write(I, s, obj.loc, RV(I.rd(s, obj.loc), None), n)
            return [(s, RV(I.rd(s, obj.loc), obj.loc))]
        el = obj.loc + ("[]",)
        vals = list(args)
        if m in ("insert", "append", "assign") and len(vals) >= 2 and vals[-1].av.ref and vals[-2].av.ref:
            # iterator range
            for r in vals[-2].av.ref:
                I.wr(s, el, RV(I.rd(s, r), r), n, weak=True)
        elif m in ("insert",) and len(vals) == 2:
            I.wr(s, el, vals[1], n, weak=True)
        elif m in ("emplace", "try_emplace", "insert_or_assign") and len(vals) == 2 and "map" in cls:
            I.wr(s, el + ("first",), vals[0], n, weak=True)
            I.wr(s, el + ("second",), vals[1], n, weak=True)
        elif m in ("emplace_back", "emplace_front") and len(vals) == 2 and I.ty(n["t"]).get("rec") in ("std::basic_string", "std::basic_string_view", "yacl::Buffer"):
            pl = I.deep(s, vals[0])         # built from a pointer and a length
            I.wr(s, el, RV(I.fresh("emplaced", lab | pl), None), n, weak=True)
        elif m in ("emplace_back", "emplace", "push_back", "emplace_front") and len(vals) == 2:
            I.wr(s, el + ("first",), vals[0], n, weak=True)
            I.wr(s, el + ("second",), vals[1], n, weak=True)
        elif len(vals) == 1:
            I.wr(s, el, vals[0], n, weak=True)
        elif vals:
            I.wr(s, el, RV(I.fresh("emplaced", lab), None), n, weak=True)
        I.bump(s, obj.loc)
        I.R.write(I, s, obj.loc, RV(I.rd(s, obj.loc), None), n)
        if m in ("emplace_back", "emplace_front"):
            return [(s, RV(I.rd(s, el), el))]
        return [(s, RV(AV(T.fresh(m), E0, (el,), ()), None))]
    if m == "resize" and obj.loc is not None:
        I.bump(s, obj.loc)
        s.store[obj.loc + ("@size",)] = args[0].av
        I.R.write(I, s, obj.loc, RV(I.rd(s, obj.loc), None), n)
        if len(args) > 1:
            I.wr(s, obj.loc + ("[]",), args[1], n, weak=True)
        return [(s, RV(I.fresh(), None))]
    if m in ("clear",) and obj.loc is not None:
        I.wr(s, obj.loc, RV(AV(T.fresh("clear"), E0, (), ()), None), n)
        s.store[obj.loc + ("@size",)] = I.cst(0)
        return [(s, RV(I.fresh(), None))]
    if m in ("reserve", "shrink_to_fit", "pop", "pop_back", "pop_front", "erase", "swap") and obj.loc is not None:
        if m not in ("reserve", "shrink_to_fit"):
            I.bump(s, obj.loc)
            I.R.write(I, s, obj.loc, RV(I.rd(s, obj.loc), None), n)
        if m == "swap" and args and args[0].loc is not None:
            a, c = I.tmpof(s, obj), I.tmpof(s, args[0])
            I.wr(s, obj.loc, I.rdq(s, c), n)
            I.wr(s, args[0].loc, I.rdq(s, a), n)
        return [(s, RV(AV(T.fresh(m), E0, (obj.loc + ("[]",),), ()), None))]
    if m in ("substr", "subspan", "first", "last") and obj.loc is not None or m in ("substr", "subspan"):
        ref = obj.av.ref or ((obj.loc,) if obj.loc is not None and cls in VIEW else ())
        l = I.tmp()
        ln = args[1].av if len(args) > 1 else (args[0].av if m in ("first", "last") else None)
        t = T.mk("sub", obj.av.t, tuple(a.av.t for a in args))
        s.store[l] = AV(t, I.deep(s, obj), ref if cls != "std::string" else (), ())
        if ln is not None:
            s.store[l + ("@size",)] = ln
        return [(s, RV(s.store[l], l))]
    if m in ("count", "contains"):
        return [(s, RV(AV(T.mk("call", m, obj.av.t, tuple(a.av.t for a in args)), E0, (), ()), None))]
    return None


def proto(I, n, s, m, obj, args):
    """Generated protobuf accessors as field paths."""
    T = I.T
    base = obj.loc if obj.loc is not None else (obj.av.ref[0] if obj.av.ref else I.tmpof(s, obj))
    if m.startswith("mutable_") and not args:
        l = base + (m[8:],)
        I.R.write(I, s, l, RV(I.rd(s, l), l), n) if getattr(I.R, "pbmut", False) else None
        s.store[base + ("@has", m[8:])] = I.cst(1)
        return [(s, RV(AV(T.mk("&", l), E0, (l,), ()), None))]
    if m.startswith("mutable_") and args:
        l = base + (m[8:], "[]")
        return [(s, RV(AV(T.mk("&", l), E0, (l,), ()), None))]
    if m.startswith("set_") and len(args) >= 1:
        if m.startswith("set_allocated_"):
            l = base + (m[14:],)
            for r in args[0].av.ref:
                I.wr(s, l, RV(I.rd(s, r), r), n)
            return [(s, RV(I.fresh(), None))]
        l = base + (m[4:],)
        if len(args) == 2 and I.ty(n["pt"][0]).get("int") and I.ty(n["pt"][0]).get("s") == "int":
            I.wr(s, l + ("[]",), args[1], n, weak=True)
        elif len(args) == 2:
            lab = labs(I, s, args[:1])
            I.wr(s, l, RV(AV(T.mk("bytes", args[0].av.t, args[1].av.t), lab, (), ()), None), n)
        else:
            I.wr(s, l, args[0], n)
        s.store[base + ("@has", m[4:])] = I.cst(1)
        return [(s, RV(I.fresh(), None))]
    if m.startswith("add_"):
        l = base + (m[4:], "[]")
        if args:
            lab = labs(I, s, args[:1])
            I.wr(s, l, args[0] if len(args) == 1 else RV(I.fresh("bytes", lab), None), n, weak=True)
        I.bump(s, base + (m[4:],))
        return [(s, RV(AV(T.mk("&", l), E0, (l,), ()), None))]
    if m.startswith("has_") and not args:
        k = base + ("@has", m[4:])
        a = s.store.get(k)
        if a is not None:
            return [(s, RV(a, None))]
        return [(s, RV(AV(T.mk("has", I.rd(s, base + (m[4:],)).t), E0, (), ()), None))]
    if m.startswith("clear_") and not args:
        l = base + (m[6:],)
        I.wr(s, l, RV(I.cst(0), None), n)
        s.store[base + ("@has", m[6:])] = I.cst(0)
        return [(s, RV(I.fresh(), None))]
    if m.startswith("unsafe_arena") or m.startswith("release_"):
        l = base + (m.split("release_")[-1],)
        return [(s, RV(AV(T.mk("&", l), E0, (l,), ()), None))]
    if m.endswith("_size") and not args and n.get("constm") and I.ty(n.get("t")).get("s") in ("int", None):
        l = base + (m[:-5],)
        return [(s, RV(AV(T.mk("size", I.rd(s, l).t), I.rd(s, l).lab, (), ()), None))]
    if m in ("CopyFrom", "MergeFrom", "operator="):
        I.wr(s, base, args[0], n)
        return [(s, RV(I.fresh(), None))]
    if m in ("default_instance", "New", "GetDescriptor", "descriptor"):
        return None
    if m == "Clear":
        I.wr(s, base, RV(I.fresh("cleared"), None), n)
        return [(s, RV(I.fresh(), None))]
    if m in ("ByteSizeLong", "IsInitialized", "GetCachedSize", "Swap"):
        return None
    if not args and n.get("constm"):
        l = base + (m,)
        return [(s, RV(I.rd(s, l), l))]
    if len(args) == 1 and n.get("constm"):
        l = base + (m, "[]")
        return [(s, RV(I.rd(s, l), l))]
    return None

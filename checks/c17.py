"""C17 a configuration turned from one form into another keeps every setting."""
from prog import AnalysisError, gen_protos, fn_nodes, visit
from ai import AV, RV, E0
from flow import *
from c05 import fn
from c18 import enums, made
import models, pbdesc
from runner import analyse, SELF

BIG = ("api",)
JOIN = {"JOIN_TYPE_" + x: "ADVANCED_JOIN_TYPE_" + x for x in ("UNSPECIFIED", "INNER_JOIN", "LEFT_JOIN", "RIGHT_JOIN", "FULL_JOIN", "DIFFERENCE")}
IO = {"SOURCE_TYPE_UNSPECIFIED": "IO_TYPE_UNSPECIFIED", "SOURCE_TYPE_FILE_CSV": "IO_TYPE_FILE_CSV"}
PROTO = {"PROTOCOL_ECDH": ("v2", "PROTOCOL_ECDH"), "PROTOCOL_KKRT": ("v2", "PROTOCOL_KKRT"), "PROTOCOL_RR22": ("v2", "PROTOCOL_RR22"),
         "PROTOCOL_ECDH_3PC": ("legacy", "ECDH_PSI_3PC"), "PROTOCOL_ECDH_NPC": ("legacy", "ECDH_PSI_NPC"),
         "PROTOCOL_KKRT_NPC": ("legacy", "KKRT_PSI_NPC"), "PROTOCOL_DP": ("legacy", "DP_PSI_2PC")}
IDENT = None    # enumerators keep their names

# destination field <- source field (settings copied unchanged)
COPY_IO = {("input_config", "path"): "input_params.path", ("input_attr", "keys_unique"): "input_params.keys_unique",
           ("output_attr", "csv_null_rep"): "output_params.csv_null_rep", ("output_config", "path"): "output_params.path",
           ("keys",): "input_params.selected_keys", ("disable_alignment",): "output_params.disable_alignment"}
COPY_V2 = dict(COPY_IO)
COPY_V2.update({("protocol_config", "broadcast_result"): "protocol_conf.broadcast_result",
                ("protocol_config", "ecdh_config", "batch_size"): "protocol_conf.ecdh_params.batch_size",
                ("protocol_config", "kkrt_config", "bucket_size"): "protocol_conf.bucket_size",
                ("protocol_config", "rr22_config", "bucket_size"): "protocol_conf.bucket_size",
                ("protocol_config", "rr22_config", "low_comm_mode"): "protocol_conf.rr22_params.low_comm_mode",
                ("recovery_config", "enabled"): "checkpoint_conf.enable", ("recovery_config", "folder"): "checkpoint_conf.path"})
ENUM_V2 = {("protocol_config", "ecdh_config", "curve"): "protocol_conf.ecdh_params.curve", ("input_config", "type"): "input_params.type",
           ("output_config", "type"): "output_params.type", ("advanced_join_type",): "join_conf.type"}
COPY_UB = dict(COPY_IO)
COPY_UB.update({("server_secret_key_path",): "server_params.secret_key_path", ("cache_path",): "cache_path",
                ("server_get_result",): "server_receive_result", ("client_get_result",): "client_receive_result"})
ENUM_UB = {("mode",): "mode", ("input_config", "type"): "input_params.type", ("output_config", "type"): "output_params.type", ("advanced_join_type",): "join_conf.type"}
COPY_OLD = {("receiver_rank",): "protocol_conf.receiver_rank", ("broadcast_result",): "protocol_conf.broadcast_result", ("input_params", "path"): "input_params.path",
            ("input_params", "select_fields"): "input_params.selected_keys", ("output_params", "path"): "output_params.path",
            ("bucket_size",): "protocol_conf.bucket_size", ("dppsi_params", "bob_sub_sampling"): "protocol_conf.dp_params.bob_sub_sampling",
            ("dppsi_params", "epsilon"): "protocol_conf.dp_params.epsilon"}
ENUM_OLD = {("curve_type",): "protocol_conf.ecdh_params.curve"}
BOOL_OLD = {("input_params", "precheck"): "input_params.keys_unique", ("output_params", "need_sort"): "output_params.disable_alignment"}
REPORT = {"original_count": "original_count", "intersection_count": "intersection_count", "original_unique_count": "original_key_count",
          "intersection_unique_count": "intersection_key_count"}
ENUMS = {"protocol_conf.protocol": "psi::api::PsiProtocol", "protocol_conf.ecdh_params.curve": "psi::api::EllipticCurveType", "input_params.type": "psi::api::SourceType",
         "output_params.type": "psi::api::SourceType", "join_conf.type": "psi::api::ResultJoinType", "mode": "psi::api::ub::UbPsiExecuteConfig::Mode",
         "role": "psi::api::ub::UbPsiRole"}
DEST = {"protocol_conf.ecdh_params.curve": ("psi::CurveType", IDENT), "input_params.type": ("psi::v2::IoType", IO), "output_params.type": ("psi::v2::IoType", IO),
        "join_conf.type": ("psi::v2::PsiConfig_AdvancedJoinType", JOIN), "mode": ("psi::v2::UbPsiConfig_Mode", IDENT)}


def short(n):
    return n.rpartition("::")[2]


def values(p, name):
    """Enumerators of an enumeration: {short name: value}."""
    for k in (name, name.replace("_", "::")):
        if k in p.enums:
            return {x["n"].rpartition("::")[2]: x["v"] for x in p.enums[k]["v"] if "sentinel" not in x["n"].lower()}
    raise AnalysisError("enumeration %s not found" % name)


def dval(p, name, e):
    """Value of enumerator e of a protobuf enumeration (whatever prefix the generated code gives it)."""
    v = values(p, name)
    c = [v[k] for k in v if k == e or k.endswith("_" + e) and k[:-len(e) - 1] in name.replace("::", "_")]
    if len(c) != 1:
        raise AnalysisError("enumerator %s of %s not found" % (e, name))
    return c[0]


class Conv(Flow):
    """Interprets a conversion; the calls that consume its result are recorded together with the state they are made in."""
    K = 24
    inline_max = 14

    def __init__(self, sinks, rank=0):
        super().__init__()
        self.sinks, self.rank, self.hits = sinks, rank, []

    def pairs(self, I, g):
        d = I.P.globals.get(g)
        if d is None:
            return None
        out = {}
        for x in visit(d):
            if x.get("k") in ("ctor", "init"):
                e = [y for y in visit(x) if type(y.get("cv")) is int]
                if len(e) == 2:
                    out.setdefault(e[0]["cv"], e[1]["cv"])
        return out or None

    def table(self, I, obj):
        for l in ([obj.loc] if obj is not None and obj.loc is not None else []) + (list(obj.av.ref) if obj is not None else []):
            if len(l) == 1 and isinstance(l[0], tuple) and l[0][0] == "g":
                return self.pairs(I, l[0][1])
        return None

    def special(self, I, st, n, b, cls, m, obj, args):
        if b in self.sinks or short(b) in self.sinks:
            if not I.dry:
                self.hits.append((b, st.copy(), list(args), I.where(n), obj))
            l = (("h", I.fr.id, n.get("l"), "result"),)
            st.store[l] = I.fresh("result")
            for x in REPORT.values():
                st.store[l + (x,)] = I.fresh(x)
            st.facts = st.facts | {("ran", short(b), l)}
            return [(st, RV(st.store[l], l))]
        if m in ("at", "operator[]", "find", "count", "contains") and args and "map" in cls:
            t = self.table(I, obj)
            if t is not None:
                c, v = I.isc(args[-1].av)
                if c:
                    if m in ("count", "contains"):
                        return [(st, RV(I.cst(int(v in t)), None))]
                    if v not in t:
                        if m == "at":
                            return []
                        if m == "operator[]":
                            return self.val(I, st, (), None, "dflt")
                        return [(st, RV(AV(I.T.mk("endit", 0), E0, (), ()), None))]
                    l = (("h", I.fr.id, n.get("l"), "entry", v),)
                    st.store[l + ("first",)] = I.cst(v)
                    st.store[l + ("second",)] = I.cst(t[v])
                    if m == "find":
                        return [(st, RV(AV(I.T.mk("foundit", l), E0, (l,), ()), None))]
                    return [(st, RV(I.cst(t[v]), l + ("second",)))]
        if m in ("end", "cend") and self.table(I, obj) is not None:
            return [(st, RV(AV(I.T.mk("endit", 0), E0, (), ()), None))]
        if m in ("operator==", "operator!="):
            ks = [I.T.tab[x.av.t][0] for x in ([obj] if obj is not None else []) + list(args) if x is not None]
            ks = [k for k in ks if k in ("endit", "foundit")]
            if len(ks) == 2:
                return [(st, RV(I.cst((ks[0] == ks[1]) == (m == "operator==")), None))]
        if m.startswith("has_") and obj is not None and "::" in cls and not args:
            return [(st, RV(I.cst(True), None))]
        return None


def src(p, path):
    return ((("p", p),) + tuple(path.split(".")))


def fits(I, st, t, bits):
    """A test on this path bounds t by the largest value of the narrower type."""
    for c, v in st.conds.items():
        k = I.T.tab[c]
        if k[0] == "<" and t in k[1:]:
            u = I.T.const(k[1] if k[2] == t else k[2])
            if u[0] and (k[2] == t and not v and u[1] < 1 << bits or k[1] == t and v and u[1] <= 1 << bits):
                return True
    return False


def canon(I, t):
    """Fields of an initial value are initial values of the fields."""
    k = I.T.tab[t]
    if k[0] == "." and I.T.tab[k[1]][0] == "r":
        r = I.T.tab[k[1]]
        return ("r", r[1], tuple(r[2]) + tuple(k[2]))
    return tuple(k[:2]) + (tuple(k[2]),) if k[0] == "r" else t


def same(I, st, a, b):
    """The value at a is the value at b (in a narrower type only where it is known to fit)."""
    x, y = I.rd(st, a), I.rd(st, b)
    if x.t == y.t or canon(I, x.t) == canon(I, y.t):
        return True
    k = I.T.tab[x.t]
    if k[0] == "narrow" and k[2] == y.t and fits(I, st, y.t, k[1]):
        return True
    c1, c2 = I.isc(x), I.isc(y)
    return c1[0] and c2[0] and c1[1] == c2[1]


def mark(st, I, q, lists):
    for s in lists:
        l = src(q, s)
        st.store[l] = I.fresh(s, frozenset(["src:" + s]))
        st.store[l + ("[]",)] = I.fresh(s, frozenset(["src:" + s]))


def holds(lab):
    return sorted(x[4:] for x in lab if isinstance(x, str) and x.startswith("src:"))


class Judge:
    def __init__(self, cx, p, q, lists):
        self.cx, self.p, self.q, self.lists = cx, p, q, lists

    def copies(self, I, st, d, table, what, w):
        for path, s in sorted(table.items()):
            dl, sl = d + path, src(self.q, s)
            name = "%s <- %s" % (".".join(path), s)
            if s in self.lists:
                got = holds(I.deep(st, RV(I.rd(st, dl), dl)))
                self.cx.check(got == [s], "setting is kept", what + ": " + name, "the field holds %s" % (got or "nothing of the source configuration"), w)
            else:
                ok = same(I, st, dl, sl)
                self.cx.check(ok, "setting is kept", what + ": " + name, "the field does not hold the source's value on this path", w)

    def enum(self, I, st, d, table, val, what, w):
        for path, s in sorted(table.items()):
            en, names = DEST[s]
            e = [k for k, v in values(self.p, ENUMS[s]).items() if v == val[s]][0]
            want = dval(self.p, en, (names or {}).get(e, e))
            c, got = I.isc(I.rd(st, d + path))
            self.cx.check(c and got == want, "choice is kept", "%s: %s = %s" % (what, s, e), "%s becomes %s" % (e, got if c else "a value not determined by it"), w)


def valuations(p, keys):
    """Every value of every choice at least once."""
    vs = {k: [v for v in sorted(values(p, ENUMS[k]).values())] for k in keys}
    for i in range(max(map(len, vs.values()))):
        yield {k: v[i % len(v)] for k, v in vs.items()}


def dst(args, i):
    a = args[i]
    return a.loc if a.loc is not None else (a.av.ref[0] if a.av.ref else None)


def execute(cx, p):
    f = fn(p, "psi::api::PsiExecute")
    q = f.d["ps"][0]["n"]
    lists = ("input_params.selected_keys",)
    w = "%s:%d" % (f.file, f.line)
    J = Judge(cx, p, q, lists)
    n = 0
    role = lambda r: dval(p, "psi::v2::Role", r)
    protos = values(p, ENUMS["protocol_conf.protocol"])
    for pn, pv in sorted(protos.items()):
        if pn not in PROTO and pn != "PROTOCOL_UNSPECIFIED":
            cx.ok("protocol without reference: it is not judged", pn)
            continue
        for i, val in enumerate(valuations(p, [k for k in ENUMS if k not in ("mode", "role", "protocol_conf.protocol")])):
            for rr, lr, kb in ((0, 0, 0), (0, 1, 1), (1, 0, 0), (1, 1, 1)):
                def setup(I, st):
                    mark(st, I, q, lists)
                    for k, v in val.items():
                        st.store[src(q, k)] = I.cst(v)
                    st.store[src(q, "protocol_conf.protocol")] = I.cst(pv)
                    st.store[src(q, "protocol_conf.receiver_rank")] = I.cst(rr)
                    st.store[src(q, "join_conf.left_side_rank")] = I.cst(lr)
                    for b in ("input_params.keys_unique", "output_params.disable_alignment"):
                        st.store[src(q, b)] = I.cst(bool(kb))
                if i and (rr, lr) != (0, 0):
                    continue
                rule = Conv(("RunPsi", "RunLegacyPsi"))
                I, outs = analyse(p, rule, f, None, setup)
                if pn == "PROTOCOL_UNSPECIFIED":
                    cx.check(not rule.hits, "no protocol is run unless one is chosen", "PsiExecute", "PROTOCOL_UNSPECIFIED runs a protocol", w)
                    continue
                kind, name = PROTO[pn]
                cx.check(rule.hits, "choice is kept", "PsiExecute " + pn, "a configuration with %s and %s is refused" % (pn, val), w)
                for b, st, args, wh, o in rule.hits:
                    n += 1
                    what = "PsiExecute " + pn
                    d = dst(args, 0)
                    cx.check(short(b) == {"v2": "RunPsi", "legacy": "RunLegacyPsi"}[kind], "choice is kept", what + " runs", "%s is run with %s" % (pn, b), wh)
                    if short(b) == "RunPsi":
                        J.copies(I, st, d, COPY_V2, what, wh)
                        J.enum(I, st, d, ENUM_V2, val, what, wh)
                        c, got = I.isc(I.rd(st, d + ("protocol_config", "protocol")))
                        cx.check(c and got == dval(p, "psi::v2::Protocol", name), "choice is kept", what, "the protocol becomes %s" % got, wh)
                        c, got = I.isc(I.rd(st, d + ("protocol_config", "role")))
                        cx.check(c and got == role("ROLE_RECEIVER" if rr == rule.rank else "ROLE_SENDER"), "roles follow the ranks", "receiver", "rank %d gets role %s when rank %d is the receiver" % (rule.rank, got, rr), wh)
                        c, got = I.isc(I.rd(st, d + ("left_side",)))
                        cx.check(c and got == role("ROLE_RECEIVER" if rr == lr else "ROLE_SENDER"), "roles follow the ranks", "left side", "the left side becomes role %s for left rank %d and receiver rank %d" % (got, lr, rr), wh)
                    elif short(b) == "RunLegacyPsi":
                        J.copies(I, st, d, COPY_OLD, what, wh)
                        J.enum(I, st, d, ENUM_OLD, val, what, wh)
                        c, got = I.isc(I.rd(st, d + ("psi_type",)))
                        cx.check(c and got == dval(p, "psi::PsiType", name), "choice is kept", what, "the protocol becomes %s" % got, wh)
                        for path, s in BOOL_OLD.items():
                            c, got = I.isc(I.rd(st, d + path))
                            cx.check(c and bool(got) == (not kb), "setting is kept", what + ": %s <- not %s" % (".".join(path), s), "the field does not hold the negated setting", wh)
                        if len(args) > 3:
                            g = f.d["ps"][2]["n"]
                            for k, fld in ((2, "hook"), (3, "interval_ms")):
                                cx.check(args[k].av.t == I.rd(st, (("p", g), fld)).t or args[k].loc == (("p", g), fld) or fld == "hook", "setting is kept", what + ": progress " + fld, "RunLegacyPsi is not given the caller's %s" % fld, wh)
                reports(cx, I, outs, "PsiExecute " + pn, w)
    return n


def reports(cx, I, outs, what, w):
    if not outs:
        return
    for st, rv in outs:
        ran = [x for x in st.facts if x[0] == "ran"]
        r = rv.loc if rv.loc is not None else None
        if len(ran) != 1 or r is None:
            cx.check(len(ran) == 1, "report is kept", what, "%d protocols are run before a report is returned" % len(ran), w)
            continue
        for d, s in sorted(REPORT.items()):
            cx.check(same(I, st, r + (d,), ran[0][2] + (s,)), "report is kept", "%s: %s <- %s" % (what, d, s), "the report's %s is not the %s of the run" % (d, s), w)


def ub(cx, p):
    f = fn(p, "psi::api::UbPsiExecute")
    q = f.d["ps"][0]["n"]
    lists = ("input_params.selected_keys",)
    w = "%s:%d" % (f.file, f.line)
    J = Judge(cx, p, q, lists)
    n = 0
    roles = values(p, ENUMS["role"])
    rv = lambda r: dval(p, "psi::v2::Role", r)
    for rn, r in sorted(roles.items()):
        for i, val in enumerate(valuations(p, ["input_params.type", "output_params.type", "join_conf.type", "mode"])):
            for rank, lr in ((0, 0), (0, 1), (1, 0), (1, 1)):
                if i and (rank, lr) != (0, 0):
                    continue
                def setup(I, st):
                    mark(st, I, q, lists)
                    for k, v in val.items():
                        st.store[src(q, k)] = I.cst(v)
                    st.store[src(q, "role")] = I.cst(r)
                    st.store[src(q, "join_conf.left_side_rank")] = I.cst(lr)
                rule = Conv(("RunUbPsi",), rank)
                I, outs = analyse(p, rule, f, None, setup)
                what = "UbPsiExecute " + rn
                if rn == "ROLE_UNSPECIFIED":
                    cx.check(not rule.hits, "no protocol is run unless one is chosen", what, "a configuration without a role is run", w)
                    continue
                cx.check(rule.hits, "choice is kept", what, "a configuration with %s is refused" % val, w)
                for b, st, args, wh, o in rule.hits:
                    n += 1
                    d = dst(args, 0)
                    J.copies(I, st, d, COPY_UB, what, wh)
                    J.enum(I, st, d, ENUM_UB, val, what, wh)
                    c, got = I.isc(I.rd(st, d + ("role",)))
                    cx.check(c and got == rv(rn), "roles follow the ranks", what, "%s becomes role %s" % (rn, got), wh)
                    left = rn if rank == lr else {"ROLE_SERVER": "ROLE_CLIENT", "ROLE_CLIENT": "ROLE_SERVER"}[rn]
                    c, got = I.isc(I.rd(st, d + ("left_side",)))
                    cx.check(c and got == rv(left), "roles follow the ranks", what + " left side", "the left side becomes role %s at rank %d with left rank %d" % (got, rank, lr), wh)
                reports(cx, I, outs, what, w)
    return n


SAMENAME = (("psi::RunPir", ("RunReceiver", "RunSender")), ("psi::RunDkPir", ("ReceiverOnline", "SenderOffline", "SenderOnline")))
SKIP = {"mode"}


def unset(I, st, t):
    """On this path the setting t is known to be zero."""
    for c, v in st.conds.items():
        k = I.T.tab[c]
        if c == t and not v or k[0] == "==" and v and t in k[1:] and (True, 0) in [I.T.const(x) for x in k[1:]]:
            return True
        if k[0] == "<" and (k[2] == t and not v and I.T.const(k[1]) == (True, 0) or k[1] == t and v and I.T.const(k[2]) == (True, 1)):
            return True
    return False


def pir(cx, p):
    """Fields of a message reach the option of the same name."""
    n = 0
    msgs, _ = pbdesc.load(gen_protos()[0] + "/all.desc")
    for name, sinks in SAMENAME:
        for f in p.byname.get(name, []):
            if not f.d.get("body"):
                continue
            q = f.d["ps"][0]
            t = f.T[q["t"]]
            msg = t.get("rec") or t.get("s", "").replace("const ", "").replace("&", "").strip()
            ref = msgs.get('.' + msg.replace('::', '.'))
            if ref is None:
                raise AnalysisError('message %s not described' % msg)
            ref = {x['name']: x for x in ref['fields'].values()}
            rule = Conv(sinks)
            rule.K = 200
            lists = tuple(k for k, x in ref.items() if x["card"].startswith("repeated"))
            def setup(I, st):
                mark(st, I, q["n"], lists)
            I, outs = analyse(p, rule, f, None, setup)
            what = "%s(%s)" % (name.rpartition("::")[2], short(msg))
            wh = "%s:%d" % (f.file, f.line)
            if not rule.hits:
                raise AnalysisError("%s: nothing is run with the configuration" % what)
            for b, st, args, w, o in rule.hits:
                d = dst(args, 0)
                oc = optclass(p, f, I, st, args[0], d)
                flds = {x["n"] for x in oc["fields"]}
                for s in sorted(ref):
                    if s in SKIP:
                        continue
                    n += 1
                    cx.check(s in flds, "setting has a counterpart", what + ": " + s, "the options have no field for %s" % s, w)
                    if s not in flds:
                        continue
                    dl, sl = d + (s,), (("p", q["n"]), s)
                    if s in lists:
                        got = holds(I.deep(st, RV(I.rd(st, dl), dl)))
                        cx.check(got == [s], "setting is kept", what + ": " + s, "the option holds %s" % (got or "nothing of the configuration"), w)
                        continue
                    if same(I, st, dl, sl):
                        cx.ok("setting is kept", what + ": " + s)
                        continue
                    # the default is kept where the configuration leaves the setting open: the path looked at the setting
                    dv = I.rd(st, dl)
                    t = I.rd(st, sl).t
                    tested = any(contains(I, t2, t) for t2 in st.conds) if ref[s]["type"] == "string" else unset(I, st, t)
                    cx.check(I.isc(dv)[0] and tested, "setting is kept", what + ": " + s, "the option is not given the configured value", w)
                    I_any.setdefault((what, s), [False, w])
                for s in ref:
                    if s in flds and same(I, st, d + (s,), (("p", q["n"]), s)):
                        I_any.setdefault((what, s), [True, w])[0] = True
    for (what, s), (ok, w) in sorted(I_any.items()):
        cx.check(ok, "setting is kept", what + ": " + s + " on some path", "no path gives the option the configured value", w)
    I_any.clear()
    return n


I_any = {}


def contains(I, t, x, d=6):
    if t == x:
        return True
    if d == 0 or not isinstance(t, int):
        return False
    return x in I.T.sub(t)


def optclass(p, f, I, st, a, d):
    """Class of the options object handed over."""
    x = st.store.get(d + ("@cls",))
    c = I.isc(x)[1] if x is not None and I.isc(x)[0] else None
    if c not in p.classes:
        raise AnalysisError("class of the options of %s not known (%s)" % (f.f, c))
    return p.classes[c]


def body(p, name):
    fs = [f for f in p.byname.get(name, []) if f.d.get("body") is not None]
    if len(fs) != 1:
        raise AnalysisError("%s not found (%d)" % (name, len(fs)))
    return fs[0]


MEM = ("psi_type", "curve_type", "receiver_rank", "broadcast_result", "dppsi_params.bob_sub_sampling", "dppsi_params.epsilon")


def legacy(cx, p):
    """BucketPsiConfig -> MemoryPsiConfig -> options of the operators."""
    n = 0
    f = body(p, "psi::BucketPsi::Init")
    rule = Conv(("ctor:psi::MemoryPsi",))
    I, outs = analyse(p, rule, f, None, None)
    if not rule.hits:
        raise AnalysisError("BucketPsi::Init: no in-memory PSI is created")
    for b, st, args, w, o in rule.hits:
        d = dst(args, 0)
        for m in MEM:
            n += 1
            path = tuple(m.split("."))
            cx.check(same(I, st, d + path, SELF + ("config_",) + path), "setting is kept", "MemoryPsiConfig." + m, "the in-memory PSI is not given the configured %s" % m, w)
    kinds = values(p, "psi::PsiType")
    for g in p.byname.get("psi::CreateOperator", []):
        q = [x["n"] for x in g.d["ps"] if "MemoryPsiConfig" in g.T[x["t"]].get("s", "")]
        if not q or not g.d.get("body"):
            continue
        w = "%s:%d" % (g.file, g.line)
        q = q[0]
        for kn in ("ECDH_PSI_NPC", "KKRT_PSI_NPC"):
            def setup(I, st):
                st.store[(("p", q), "psi_type")] = I.cst(kinds[kn])
            rule = Conv(("ctor:psi::ecdh::ShuffleEcdh3PcPsi",))
            I, outs = analyse(p, rule, g, None, setup)
            for st, rv in outs:
                for c, l in made(I, st, rv):
                    flds = {}
                    for k, v in I.subs(st, l):
                        flds.setdefault(str(k[-1]).rstrip("_"), []).append(k)
                    what = "options of " + short(c)
                    for names, s in ((("receiver_rank", "master_rank"), ("receiver_rank",)), (("p1",), ("dppsi_params", "bob_sub_sampling")), (("alice_epsilon",), ("dppsi_params", "epsilon"))):
                        for k in [k for x in names for k in flds.get(x, [])]:
                            n += 1
                            cx.check(same(I, st, k, (("p", q),) + s), "setting is kept", "%s: %s" % (what, k[-1]), "the operator is not given the configured %s" % s[-1], w)
                    for k in flds.get("psi_proto", []):
                        n += 1
                        x, got = I.isc(I.rd(st, k))
                        e = [y for z in p.enums for y in p.enums[z]["v"] if "PsiProtocol" in z and "NpartyPsiOperator" in z]
                        want = [y["v"] for y in e if short(y["n"]).lower() == kn.split("_")[0].lower()]
                        cx.check(x and want == [got], "choice is kept", what + " " + kn, "%s is run with protocol number %s" % (kn, got), w)
    cx.floor("legacy settings followed", n, 12)
    f = [x for x in p.byname.get("psi::Ecdh3PartyPsiOperator::Ecdh3PartyPsiOperator", []) if x.d.get("ctor") and x.d.get("body") is not None and len(x.d["ps"]) == 1]
    for g in f:
        q = g.d["ps"][0]["n"]
        rule = Conv(("ctor:psi::ecdh::ShuffleEcdh3PcPsi",))
        I, outs = analyse(p, rule, g, None, None)
        for b, st, args, w, o in rule.hits:
            for m in ("master_rank", "batch_size", "dual_mask_size", "curve_type"):
                n += 1
                cx.check(same(I, st, dst(args, 0) + (m,), (("p", q), m)), "setting is kept", "ShuffleEcdh3PcPsi options: " + m, "the three-party protocol is not given the operator's %s" % m, w)
    return n


def current(cx, p):
    """Protocol settings of PsiConfig -> the parties' options."""
    n = 0
    C = SELF + ("config_", "protocol_config")
    for c in ("psi::ecdh::EcdhPsiReceiver", "psi::ecdh::EcdhPsiSender"):
        fs = [body(p, c + "::" + m) for m in ("Init", "PreProcess", "Online")]
        src_ = C + ("ecdh_config", "batch_size")
        rule = Conv(("RunEcdhPsi",))
        rule.no_inline = lambda I, fn: not fn.f.startswith(c)
        I, outs = sequence(p, rule, fs, c, lambda I, st: None)
        seen = False
        for b, st, args, w, o in rule.hits:
            n += 1
            if same(I, st, dst(args, 0) + ("batch_size",), src_):
                seen = True
                cx.ok("setting is kept", short(c) + ": batch_size")
                continue
            t = I.rd(st, src_).t
            cx.check(unset(I, st, t), "setting is kept", short(c) + ": batch_size", "the ECDH options are not given the configured batch size", w)
        cx.check(seen, "setting is kept", short(c) + ": batch_size on some path", "no path gives the options the configured batch size", "%s:%d" % (fs[1].file, fs[1].line))
    for proto, cfg in (("kkrt", "kkrt_config"), ("rr22", "rr22_config")):
        for side in ("Receiver", "Sender"):
            cs = [k for k in p.classes if k.startswith("psi::%s::" % proto) and k.endswith("Psi" + side)]
            if len(cs) != 1:
                raise AnalysisError("party class %s %s not found" % (proto, side))
            c = cs[0]
            for meth in ("PreProcess", "Online"):
                f = body(p, c + "::" + meth)
                rule = Conv(("NegotiateBucketNum", "GenerateRr22PsiOptions"))
                rule.no_inline = lambda I, fn: fn.f != f.f and "lambda" not in fn.f and not fn.f.startswith(c)
                I, outs = analyse(p, rule, f, c, None)
                for b, st, args, w, o in rule.hits:
                    n += 1
                    if short(b) == "NegotiateBucketNum":
                        t = I.rd(st, C + (cfg, "bucket_size")).t
                        cx.check(any(a.av.t == t for a in args), "setting is kept", short(c) + ": bucket_size", "the number of buckets is not agreed from the configured bucket size", w)
                    else:
                        cx.check(args and args[0].av.t == I.rd(st, C + (cfg, "low_comm_mode")).t, "setting is kept", short(c) + ": low_comm_mode", "the RR22 options do not follow low_comm_mode", w)
    f = body(p, "psi::rr22::GenerateRr22PsiOptions")
    md = values(p, "psi::rr22::Rr22PsiMode")
    for v, e in ((True, "LowCommMode"), (False, "FastMode")):
        I, outs = analyse(p, Conv(()), f, None, None, args={f.d["ps"][0]["n"]: lambda I, st: RV(I.cst(v), None)})
        for st, rv in outs:
            n += 1
            c, got = I.isc(I.rd(st, rv.loc + ("mode",))) if rv.loc is not None else (False, None)
            cx.check(c and got == md[e], "choice is kept", "GenerateRr22PsiOptions(%s)" % v, "low_comm_mode=%s becomes mode %s" % (v, got), "%s:%d" % (f.file, f.line))
    cx.floor("protocol settings followed", n, 12)
    return n


def run(cx):
    p = cx.prog(scope=("psi/apps/", "psi/legacy/", "psi/algorithm/", "psi/config/"))
    cx.rule("every conversion of one configuration form into another is interpreted with all choices fixed to each of their values and all other settings symbolic; at the call that consumes the result every field is compared with its counterpart in the source")
    cx.trust("protobuf accessors set and return the field they are named after")
    n = execute(cx, p)
    cx.count("conversions of PsiExecuteConfig", n)
    m = ub(cx, p)
    cx.count("conversions of UbPsiExecuteConfig", m)
    k = pir(cx, p)
    legacy(cx, p)
    current(cx, p)
    cx.floor("conversions judged", n + m, 30)

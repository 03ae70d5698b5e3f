"""C16 every value of every configuration enumeration reaches the handler made for it or is refused."""
from prog import AnalysisError, fn_nodes, visit, gen_protos
from ai import AV, RV, E0
from flow import *
from c05 import fn
from c17 import values, dval, src, short, Conv
from c18 import made, method
import models, pbdesc
from runner import analyse, SELF

UNKNOWN = 77
SKIP = ("yacl::", "apsi::", "SenderOperationType", "int", "__pid_t", "HashAlgorithm")
NS = {"PROTOCOL_ECDH": "psi::ecdh::", "PROTOCOL_KKRT": "psi::kkrt::", "PROTOCOL_RR22": "psi::rr22::"}
BASE = {"ROLE_RECEIVER": "psi::AbstractPsiReceiver", "ROLE_SENDER": "psi::AbstractPsiSender", "ROLE_SERVER": "psi::AbstractUbPsiServer", "ROLE_CLIENT": "psi::AbstractUbPsiClient"}
STEPS = {"MODE_OFFLINE_GEN_CACHE": ("OfflineGenCache",), "MODE_OFFLINE_TRANSFER_CACHE": ("OfflineTransferCache",), "MODE_OFFLINE": ("Offline",),
         "MODE_ONLINE": ("Online",), "MODE_FULL": ("Offline", "Online")}
OPERATOR = {"ECDH_PSI_3PC": ("psi::Ecdh3PartyPsiOperator", None), "ECDH_PSI_NPC": ("psi::NpartyPsiOperator", "Ecdh"), "KKRT_PSI_NPC": ("psi::NpartyPsiOperator", "Kkrt"),
            "KKRT_PSI_2PC": ("psi::KkrtPsiOperator", None), "DP_PSI_2PC": ("psi::DpPsiOperator", None)}
ENTRY = {"legacy_psi_config": "psi::RunLegacyPsi", "psi_config": "psi::RunPsi", "ub_psi_config": "psi::RunUbPsi", "apsi_sender_config": "psi::RunPir",
         "apsi_receiver_config": "psi::RunPir", "dk_pir_sender_config": "psi::RunDkPir", "dk_pir_receiver_config": "psi::RunDkPir"}
IN_SERVER, IN_CLIENT, OUT = ("MODE_OFFLINE_GEN_CACHE", "MODE_OFFLINE", "MODE_FULL"), ("MODE_ONLINE", "MODE_FULL"), ("MODE_ONLINE", "MODE_FULL")


# ---------------------------------------------------------------- every switch over a configuration enumeration
def raises(p, n, f):
    """The statement never completes normally: it throws (or calls something that never returns)."""
    k = n.get("k")
    if k == "throw":
        return True
    if k in ("expr", "copy", "conv", "cast"):
        return raises(p, n["e"], f)
    if k == "call":
        return bool(n.get("noret"))
    if k == "block":
        return any(raises(p, s, f) for s in n["s"])
    if k == "do":
        return raises(p, n["b"], f)
    if k == "if":
        return n.get("y") is not None and raises(p, n["x"], f) and raises(p, n["y"], f)
    return False


def falls(p, n, f):
    """Whether control can leave the default branch (body n and what follows it in the switch)."""
    return not raises(p, n, f)


def switches(cx, p):
    k = 0
    for f in sorted(p.fns.values(), key=lambda f: (f.file, f.line)):
        if not f.d.get("body") or f.file.endswith("_test.cc"):
            continue
        for n in fn_nodes(f):
            if n.get("k") != "switch":
                continue
            t = n["c"].get("t")
            ty = f.T[t]["s"].lstrip(":") if t is not None else ""
            ty = ty.replace("const ", "")
            if not ty or any(s in ty for s in SKIP):
                continue
            en = next((e for e in (ty, "psi::" + ty, ty.replace("::psi", "psi")) if e in p.enums or e.replace("_", "::") in p.enums), None)
            if en is None:
                continue
            k += 1
            vs = {x["v"]: x["n"] for x in p.enums.get(en, p.enums.get(en.replace("_", "::")))["v"] if "sentinel" not in x["n"].lower()}
            seen, dflt = set(), []
            for c in visit(n["b"]):
                if c.get("k") == "case":
                    for y in visit(c.get("v") or c.get("c") or {}):
                        if type(y.get("cv")) is int:
                            seen.add(y["cv"])
                elif c.get("k") == "default":
                    dflt.append(c)
            w = "%s:%d" % (f.file, n.get("l", f.line))
            site = "%s over %s" % (f.f.rpartition("::")[2], ty.rpartition("::")[2])
            missing = sorted(vs[v].rpartition("::")[2] for v in vs if v not in seen)
            if missing and not dflt:
                cx.check(after_refuses(p, f, n), "each value is handled or refused", site, "no case for %s and no default that refuses it" % ", ".join(missing), w)
            elif missing:
                ok = not completes(p, f, n, dflt[0])
                cx.check(ok, "each value is handled or refused", site, "%s falls into a default that carries on without refusing it" % ", ".join(missing), w)
            else:
                cx.ok("each value is handled or refused", site)
    cx.floor("switches over configuration enumerations", k, 10)


def after_refuses(p, f, sw):
    """What follows the switch in its block refuses the value."""
    for n in fn_nodes(f):
        if n.get("k") == "block" and any(s is sw for s in n["s"]):
            i = [j for j, s in enumerate(n["s"]) if s is sw][0]
            return any(raises(p, s, f) for s in n["s"][i + 1:])
    return False


def completes(p, f, sw, dflt):
    """Whether the default branch can complete normally: judged over the statements from it to the next break."""
    b = dflt.get("s")
    stm = [b] if b else []
    body = sw["b"]["s"] if sw["b"].get("k") == "block" else [sw["b"]]
    i = next((j for j, s in enumerate(body) if any(x is dflt for x in visit(s))), None)
    if i is not None:
        stm += body[i + 1:]
    for s in stm:
        if raises(p, s, f):
            return False
        if s.get("k") == "break":
            break
    return not after_refuses(p, f, sw)


# ---------------------------------------------------------------- interpreted dispatches
class Pick(Conv):
    """Interprets a dispatch; `steps` are recorded in the order they are made on each path."""
    K = 40
    inline_max = 10

    def __init__(self, steps=(), rank=0, quiet=()):
        super().__init__((), rank)
        self.steps, self.quiet = steps, quiet

    def no_inline(self, I, fn):
        return fn.f in self.quiet or short(fn.f) in self.quiet

    def elements(self, I, n):
        """Constants a local (or global) set is made of, when the call is on one."""
        o = n.get("o") or {}
        while o.get("k") in ("copy", "conv", "cast"):
            o = o["e"]
        if o.get("k") != "var":
            return None
        d = I.P.globals.get(o.get("g")) if o.get("g") else None
        if d is None and I.fr.fn is not None:
            ds = [x for x in fn_nodes(I.fr.fn) if x.get("k") == "decl" and x.get("id") == o.get("id")]
            d = ds[0].get("e") if ds else None
        if d is None:
            return None
        return {x["cv"] for x in visit(d) if x.get("k") in ("enum", "var", "int") and type(x.get("cv")) is int}

    def special(self, I, st, n, b, cls, m, obj, args):
        if b in self.steps or m in self.steps:
            done = [x for x in st.facts if x[0] == "did"]
            st.facts = frozenset(x for x in st.facts if x[0] != "did") | {("did",) + (done[0][1:] if done else ()) + (m,)}
            return [(st, RV(I.cst(0), None))]
        if m in ("exists",):
            return [(st, RV(I.cst(True), None))]
        if b in self.quiet or m in self.quiet:
            return [(st, RV(I.fresh("void"), None))]
        if m in ("find", "count", "contains") and "set" in cls and args:
            t, (c, v) = self.elements(I, n), I.isc(args[-1].av)
            if t is not None and c:
                if m != "find":
                    return [(st, RV(I.cst(int(v in t)), None))]
                return [(st, RV(AV(I.T.mk("foundit", v) if v in t else I.T.mk("endit", 0), E0, (), ()), None))]
        if m in ("end", "cend") and "set" in cls and self.elements(I, n) is not None:
            return [(st, RV(AV(I.T.mk("endit", 0), E0, (), ()), None))]
        return super().special(I, st, n, b, cls, m, obj, args)


def did(st):
    d = [x for x in st.facts if x[0] == "did"]
    return tuple(d[0][1:]) if d else ()


def supers(p, c):
    out, todo = set(), [c]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        k = p.classes.get(x)
        if k:
            todo += [k["_T"][b].get("rec", "") for b in k["bases"]]
    return out


def parties(cx, p):
    role = values(p, "psi::v2::Role")
    n = 0
    for name, ub in (("psi::createPsiParty", False), ("psi::createUbPsiParty", True)):
        f = fn(p, name)
        q = f.d["ps"][0]["n"]
        w = "%s:%d" % (f.file, f.line)
        protos = dict(values(p, "psi::v2::Protocol"), unknown=UNKNOWN) if not ub else {"": 0}
        for pn, pv in sorted(protos.items()):
            plain = {}
            for rn, rv in sorted(dict(role, unknown=UNKNOWN).items()):
                for thr in (0, 5):
                    def setup(I, st):
                        st.store[src(q, "protocol_config.protocol")] = I.cst(pv)
                        st.store[src(q, "protocol_config.role" if not ub else "role")] = I.cst(rv)
                        st.store[src(q, "intersection_threshold")] = I.cst(thr)
                    I, outs = analyse(p, Pick(), f, None, setup)
                    got = sorted({c for st, r in outs for c, _ in made(I, st, r)})
                    what = "%s %s %s%s" % (short(name), pn, rn, " with a threshold" if thr else "")
                    n += 1
                    valid = rn in (("ROLE_SERVER", "ROLE_CLIENT") if ub else ("ROLE_RECEIVER", "ROLE_SENDER")) and (ub or pn in NS)
                    if pn not in NS and not ub and pn not in ("unknown", "PROTOCOL_UNSPECIFIED"):
                        cx.ok("protocol without reference: it is not judged", what)
                        continue
                    if not valid:
                        cx.check(not outs, "what is not supported is refused", what, "a party is created (%s)" % ", ".join(got), w)
                        continue
                    if thr and not ub and pn != "PROTOCOL_ECDH":
                        cx.check(not outs, "what is not supported is refused", what, "the threshold is ignored: %s is created" % ", ".join(got), w)
                        continue
                    cx.check(len(got) == 1 and outs, "the party made for the configuration is created", what, "the classes created are %s" % (got or "none"), w)
                    for c in got:
                        ok = BASE[rn] in supers(p, c) and c.startswith(NS["PROTOCOL_ECDH" if ub else pn])
                        if not thr:
                            plain[rn] = c
                        else:
                            ok = ok and c != plain.get(rn)
                        cx.check(ok, "the party made for the configuration is created", what, "%s is created" % c, w)
    return n


def ubrun(cx, p):
    f = fn(p, "psi::AbstractUbPsiParty::Run")
    w = "%s:%d" % (f.file, f.line)
    n = 0
    for mn, mv in sorted(dict(values(p, "psi::v2::UbPsiConfig_Mode"), unknown=UNKNOWN).items()):
        mn = mn[mn.find("MODE_"):] if "MODE_" in mn else mn
        def setup(I, st):
            st.store[SELF + ("config_", "mode")] = I.cst(mv)
        I, outs = analyse(p, Pick(("OfflineGenCache", "OfflineTransferCache", "Offline", "Online"), quiet=("Init",)), f, "psi::AbstractUbPsiParty", setup)
        n += 1
        if mn not in STEPS:
            cx.check(not outs or mn not in ("MODE_UNSPECIFIED", "unknown"), "what is not supported is refused", "unbalanced PSI " + mn, "the run completes having done %s" % sorted({did(st) for st, _ in outs}), w)
            continue
        cx.check(outs, "each mode does its own steps", "unbalanced PSI " + mn, "the mode is refused", w)
        for st, _ in outs:
            cx.check(did(st) == STEPS[mn], "each mode does its own steps", "unbalanced PSI " + mn, "the run does %s" % (", ".join(did(st)) or "nothing"), w)
    fs = [f for f in p.byname.get("psi::RunDkPir", ()) if "DkPirSenderConfig" in f.u]
    if len(fs) != 1:
        raise AnalysisError("the function that runs the DkPir sender was not found")
    f = fs[0]
    q = f.d["ps"][0]["n"]
    for mn, mv in sorted(dict(values(p, "psi::DkPirSenderConfig_Mode"), unknown=UNKNOWN).items()):
        mn = mn[mn.find("MODE_"):] if "MODE_" in mn else mn
        def setup(I, st):
            st.store[src(q, "mode")] = I.cst(mv)
        I, outs = analyse(p, Pick(("SenderOffline", "SenderOnline")), f, None, setup)
        n += 1
        want = {"MODE_OFFLINE": ("SenderOffline",), "MODE_ONLINE": ("SenderOnline",)}.get(mn)
        w = "%s:%d" % (f.file, f.line)
        if want is None:
            cx.check(not outs or mn not in ("MODE_UNSPECIFIED", "unknown"), "what is not supported is refused", "DkPir sender " + mn, "the run completes", w)
            continue
        cx.check(outs, "each mode does its own steps", "DkPir sender " + mn, "the mode is refused", w)
        for st, _ in outs:
            cx.check(did(st) == want, "each mode does its own steps", "DkPir sender " + mn, "the run does %s" % (", ".join(did(st)) or "nothing"), w)
    return n


def selfcheck(cx, p):
    f = fn(p, "psi::AbstractPsiParty::CheckSelfConfig")
    w = "%s:%d" % (f.file, f.line)
    V = lambda e, x: dval(p, e, x)
    csv = V("psi::v2::IoType", "IO_TYPE_FILE_CSV")
    rec, snd = V("psi::v2::Role", "ROLE_RECEIVER"), V("psi::v2::Role", "ROLE_SENDER")
    inv = V("psi::CurveType", "CURVE_INVALID_TYPE")
    n = 0
    base = {"input_config.type": csv, "output_config.type": csv, "protocol_config.role": rec, "protocol_config.ecdh_config.curve": 1,
            "protocol_config.protocol": V("psi::v2::Protocol", "PROTOCOL_ECDH"), "recovery_config.enabled": False}
    cases = [("a plain configuration", {}, True)]
    for en, v in sorted(dict(values(p, "psi::v2::IoType"), unknown=UNKNOWN).items()):
        if v != csv:
            cases += [("input type " + en, {"input_config.type": v}, False), ("output type " + en, {"output_config.type": v}, False)]
    for rn, v in sorted(dict(values(p, "psi::v2::Role"), unknown=UNKNOWN).items()):
        if v != rec:
            cases.append(("role %s at a receiver" % rn, {"protocol_config.role": v}, False))
    cases.append(("no curve", {"protocol_config.ecdh_config.curve": inv}, False))
    for what, d, ok in cases:
        def setup(I, st):
            for k, v in dict(base, **d).items():
                st.store[SELF + ("config_",) + tuple(k.split("."))] = I.cst(v)
            st.store[SELF + ("role_",)] = I.cst(rec)
        I, outs = analyse(p, Pick(), f, "psi::AbstractPsiParty", setup)
        n += 1
        if ok:
            cx.check(outs, "what is supported is accepted", what, "the configuration is refused", w)
        else:
            cx.check(not outs, "what is not supported is refused", what, "CheckSelfConfig accepts it", w)
    return n


def joins(cx, p):
    jt = values(p, "psi::v2::PsiConfig_AdvancedJoinType")
    jt = {k[k.find("ADVANCED_"):]: v for k, v in jt.items()}
    J = lambda x: jt["ADVANCED_JOIN_TYPE_" + x]
    R = values(p, "psi::v2::Role")
    T = values(p, "psi::v2::IoType")
    csv = T["IO_TYPE_FILE_CSV"]
    mode = {k[k.find("MODE_"):]: v for k, v in values(p, "psi::v2::UbPsiConfig_Mode").items()}
    n = 0
    fs = p.byname.get("psi::JoinProcessor::JoinProcessor", ())
    for ub in (False, True):
        cand = [f for f in fs if ("UbPsiConfig" in f.u) == ub and "PsiConfig" in f.u]
        if len(cand) != 1:
            raise AnalysisError("constructor of JoinProcessor not found")
        f = cand[0]
        q = f.d["ps"][0]["n"]
        w = "%s:%d" % (f.file, f.line)
        pre = "unbalanced " if ub else ""
        mine = ("ROLE_SERVER", "ROLE_CLIENT") if ub else ("ROLE_SENDER", "ROLE_RECEIVER")

        def run(**d):
            cfg = {"input_config.type": csv, "output_config.type": csv, "role": R[mine[0]], "left_side": R[mine[0]], "advanced_join_type": J("INNER_JOIN"),
                   "mode": mode["MODE_FULL"], "server_get_result": True, "client_get_result": True}
            cfg.update({k.replace("__", "."): v for k, v in d.items()})
            if not ub:
                cfg["protocol_config.role"] = cfg.pop("role")
                for k in ("mode", "server_get_result", "client_get_result"):
                    cfg.pop(k)
            def setup(I, st):
                for k, v in cfg.items():
                    st.store[src(q, k)] = I.cst(v)
            return analyse(p, Pick(), f, "psi::JoinProcessor", setup)

        for rn, rv in sorted(dict(R, unknown=UNKNOWN).items()):
            I, outs = run(role=rv)
            n += 1
            if rn in mine:
                cx.check(outs, "what is supported is accepted", pre + "join " + rn, "the role is refused", w)
            else:
                cx.check(not outs, "what is not supported is refused", pre + "join " + rn, "the role is accepted", w)
        for tn, tv in sorted(dict(T, unknown=UNKNOWN).items()):
            if tv == csv:
                continue
            for fld in ("input_config__type", "output_config__type"):
                for mn, mv in sorted(mode.items()) if ub else [("", 0)]:
                    for rn in mine:
                        need = not ub or (mn in OUT if fld[0] == "o" else mn in (IN_SERVER if rn == "ROLE_SERVER" else IN_CLIENT))
                        if not need:
                            continue
                        I, outs = run(**{fld: tv, "role": R[rn], "mode": mv})
                        n += 1
                        cx.check(not outs, "what is not supported is refused", "%s%s %s %s %s" % (pre, fld.split("_")[0], tn, mn, rn), "the type is accepted", w)
        for t, tv in sorted(jt.items()):
            if "UNSPECIFIED" not in t and "INNER" not in t:
                I, outs = run(advanced_join_type=tv, left_side=R["ROLE_UNSPECIFIED"])
                n += 1
                cx.check(not outs, "what is not supported is refused", pre + t + " without a left side", "it is accepted", w)
            for rn in mine:
                for left in mine:
                    I, outs = run(advanced_join_type=tv, role=R[rn], left_side=R[left])
                    n += 1
                    cx.check(outs, "what is supported is accepted", pre + t, "the join type is refused", w)
                    for st, _ in outs:
                        c, got = I.isc(I.rd(st, SELF + ("type_",)))
                        want = J("INNER_JOIN") if "UNSPECIFIED" in t else tv
                        cx.check(c and got == want, "the join configured is the join made", pre + t, "the join type becomes %s" % (got if c else "a value not determined by it"), w)
                        c, got = I.isc(I.rd(st, SELF + ("left_side_",)))
                        cx.check(c and got == R[left], "the join configured is the join made", pre + t + " left side", "the left side is not the configured one", w)
                        c, got = I.isc(I.rd(st, SELF + ("role_",)))
                        cx.check(c and got == R[rn], "the join configured is the join made", pre + t + " role", "the role is not the configured one", w)
    return n


class Rows(Pick):
    """Order in which a result file gets its matched rows, its own unmatched rows and the fillers for the peer's."""
    K = 40
    for_atleast = rfor_atleast = True

    def special(self, I, st, n, b, cls, m, obj, args):
        if m == "operator<<":
            lab = self.deep(I, st, args[-1:]) & {"inter", "except", "null"}
            to = self.deep(I, st, [obj] if obj is not None else args[:1])
            for l in sorted(lab):
                d = did(st)
                if ("out" in to) and l not in d[-1:]:
                    st.facts = frozenset(x for x in st.facts if x[0] != "did") | {("did",) + d + (l,)}
            return None
        if m == "GetStdOutFileStream":
            l = (("h", 0, "result file"),)
            st.store[l] = I.fresh("file", frozenset(["out"]))
            return [(st, RV(AV(I.T.mk("&", l), E0, (l,), ()), None))]
        if m == "empty" and obj is not None and self.deep(I, st, [obj]) & {"inter", "except"}:
            known = self.deep(I, st, [obj])
            return [(st, RV(I.cst("unset" in known), None))]
        if b == "std::getline" and len(args) > 1:
            lab = self.deep(I, st, args[:1])
            for l in ([args[1].loc] if args[1].loc is not None else []):
                st.store[l] = I.fresh("line", lab)
            out = []
            for v in (True, False):
                s = st.copy()
                out.append((s, RV(I.cst(v), None)))
            return out
        return super().special(I, st, n, b, cls, m, obj, args)


def run(cx):
    cx.rule("each value is handled or refused")
    cx.rule("the party made for the configuration is created")
    cx.rule("what is not supported is refused")
    cx.rule("each mode does its own steps")
    p = cx.prog()
    switches(cx, p)
    n = parties(cx, p)
    n += ubrun(cx, p)
    n += selfcheck(cx, p)
    n += joins(cx, p)
    n += legacy(cx, p)
    n += launch(cx, p)
    n += rows(cx, p)
    cx.floor("configurations interpreted", n, 100)


def legacy(cx, p):
    n = 0
    types = values(p, "psi::PsiType")
    reg = {}
    for g, d in p.globals.items():
        if "registrar" not in g and "Registrar" not in str(d)[:4000]:
            continue
        s = [x["cv"] for x in visit(d) if x.get("k") == "str" and x["cv"] in types]
        us = [x["u"] for x in visit(d) if x.get("k") in ("fn", "var") and x.get("u") in p.fns]
        if len(s) == 1:
            reg.setdefault(s[0], []).extend(us)
    proto = {x["n"].rpartition("::")[2]: x["v"] for k in ("psi::NpartyPsiOperator::PsiProtocol",) for x in (p.enums.get(k) or {"v": []})["v"]}
    for t, (want, npc) in sorted(OPERATOR.items()):
        us = sorted(set(reg.get(t, ())))
        cx.check(len(us) == 1, "the operator registered for a type is the one made for it", t, "%d creators are registered" % len(us), "psi/legacy/factory.h")
        for u in us:
            f = p.fns[u]
            q = f.d["ps"][0]["n"]
            w = "%s:%d" % (f.file, f.line)
            def setup(I, st):
                st.store[src(q, "psi_type")] = I.cst(types[t])
            rule = Pick()
            rule.world = 3 if "3PC" in t else 2
            I, outs = analyse(p, rule, f, None, setup)
            n += 1
            got = [(c, l, st) for st, r in outs for c, l in made(I, st, r)]
            cx.check({c for c, _, _ in got} == {want}, "the operator registered for a type is the one made for it", t, "the operator created is %s" % sorted({c for c, _, _ in got}), w)
            for c, l, st in got:
                if npc and c == want:
                    k, v = I.isc(I.rd(st, l + ("options_", "psi_proto")))
                    cx.check(k and v == proto.get(npc), "the operator registered for a type is the one made for it", t + " protocol", "the %s operator runs protocol %s" % (t, [x for x in proto if proto[x] == v] if k else "?"), w)
    # the dispatch inside the n-party operator
    f = fn(p, "psi::NpartyPsiOperator::Run2PartyPsi")
    w = "%s:%d" % (f.file, f.line)
    for name, v in sorted(dict(proto, unknown=UNKNOWN).items()):
        def setup(I, st):
            st.store[SELF + ("options_", "psi_proto")] = I.cst(v)
            st.store[(("p", f.d["ps"][1]["n"]),)] = I.cst(1)
        rule = Pick(("RunEcdhPsi", "Run"), quiet=("CreateP2PLinkCtx",))
        I, outs = analyse(p, rule, f, "psi::NpartyPsiOperator", setup)
        n += 1
        steps = {did(st) for st, _ in outs}
        if name == "unknown":
            cx.check(not outs, "what is not supported is refused", "n-party protocol", "an unknown protocol runs %s" % sorted(steps), w)
        else:
            want = {"Ecdh": ("RunEcdhPsi",), "Kkrt": ("Run",)}.get(name)
            if want:
                cx.check(steps == {want}, "each mode does its own steps", "n-party " + name, "the run does %s" % sorted(steps), w)
    # types that have no legacy implementation
    f = fn(p, "psi::BucketPsi::RunPsi")
    w = "%s:%d" % (f.file, f.line)
    for t, v in sorted(types.items()):
        def setup(I, st):
            st.store[SELF + ("config_", "psi_type")] = I.cst(v)
        I, outs = analyse(p, Pick(("RunBucketPsi",)), f, "psi::BucketPsi", setup)
        n += 1
        steps = {did(st) for st, _ in outs}
        if "UB_PSI" in t:
            cx.check(not outs, "what is not supported is refused", "legacy " + t, "the type is run as %s" % sorted(steps), w)
        elif t in OPERATOR:
            cx.check(steps == {("RunBucketPsi",)}, "each mode does its own steps", "legacy " + t, "the run does %s" % sorted(steps), w)
    f = fn(p, "psi::MemoryPsi::CheckOptions")
    for t, ok in (("INVALID_PSI_TYPE", False), ("KKRT_PSI_2PC", True)):
        def setup(I, st):
            st.store[SELF + ("config_", "psi_type")] = I.cst(types[t])
        I, outs = analyse(p, Pick(), f, "psi::MemoryPsi", setup)
        n += 1
        cx.check(bool(outs) == ok, "what is not supported is refused", "in-memory " + t, "the type is %s" % ("refused" if ok else "accepted"), "%s:%d" % (f.file, f.line))
    return n


def rows(cx, p):
    jt = {k[k.find("ADVANCED_"):]: v for k, v in values(p, "psi::v2::PsiConfig_AdvancedJoinType").items()}
    R = values(p, "psi::v2::Role")
    f = fn(p, "psi::JoinProcessor::GenerateResult")
    w = "%s:%d" % (f.file, f.line)
    n = 0
    for t, tv in sorted(jt.items()):
        t = t[len("ADVANCED_JOIN_TYPE_"):]
        if t == "UNSPECIFIED":
            continue
        for mine in ("ROLE_SENDER", "ROLE_RECEIVER"):
            for left in ("ROLE_SENDER", "ROLE_RECEIVER"):
                isleft = mine == left
                own = t in ("FULL_JOIN", "DIFFERENCE") or t == "LEFT_JOIN" and isleft or t == "RIGHT_JOIN" and not isleft
                fill = t in ("FULL_JOIN", "DIFFERENCE") or t == "LEFT_JOIN" and not isleft or t == "RIGHT_JOIN" and isleft
                want = ((["inter"] if t != "DIFFERENCE" else []) + (["null"] if fill and not isleft else []) + (["except"] if own else []) + (["null"] if fill and isleft else []))

                def setup(I, st):
                    st.store[SELF + ("type_",)] = I.cst(tv)
                    st.store[SELF + ("role_",)] = I.cst(R[mine])
                    st.store[SELF + ("left_side_",)] = I.cst(R[left])
                    st.store[(("p", f.d["ps"][0]["n"]),)] = I.cst(1)
                    st.store[SELF + ("sorted_intersect_path_",)] = I.fresh("i", frozenset(["inter"] + (["unset"] if t == "DIFFERENCE" else [])))
                    st.store[SELF + ("sorted_except_path_",)] = I.fresh("e", frozenset(["except"] + ([] if own else ["unset"])))
                    st.store[SELF + ("csv_null_rep_",)] = I.fresh("n", frozenset(["null"]))
                rule = Rows(quiet=("GetUniqueKeysInfo",))
                I, outs = analyse(p, rule, f, "psi::JoinProcessor", setup)
                n += 1
                got = {tuple(x for x in did(st)) for st, _ in outs}
                full = tuple(want)
                ok = bool(got) and full in got and all(subseq(g, full) for g in got)
                cx.check(ok, "the join configured is the join made", "%s %s" % (t, "left" if isleft else "right"), "the result holds %s, expected %s" % (" or ".join(sorted(", ".join(g) or "nothing" for g in got)), ", ".join(full)), w)
    return n


def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def launch(cx, p):
    f = [f for k in ("main", "psi::main") for f in p.byname.get(k, ()) if "psi_launcher" in f.file]
    if len(f) != 1:
        raise AnalysisError("the launcher's main function was not found")
    f = f[0]
    w = "%s:%d" % (f.file, f.line)
    n = 0
    for field, want in sorted(ENTRY.items()):
        rule = Main(field)
        I, outs = analyse(p, rule, f, None, lambda I, st: None)
        n += 1
        runs = {did(st) for st, _ in outs}
        cx.check(runs == {(short(want) + "(" + field + ")",)}, "the configuration given is the one that is run", field, "the launcher runs %s" % (" or ".join(sorted(", ".join(r) or "nothing" for r in runs)) or "nothing"), w)
    I, outs = analyse(p, Main(None), f, None, lambda I, st: None)
    cx.check({did(st) for st, _ in outs} <= {()}, "the configuration given is the one that is run", "none", "a protocol is run without a configuration", w)
    return n


class Main(Pick):
    """The launcher with exactly one kind of configuration given."""

    def __init__(self, field):
        super().__init__(quiet=("FromKusciaConfig", "GenerateVersion"))
        self.field = field

    def special(self, I, st, n, b, cls, m, obj, args):
        if b in ENTRY.values():
            a = [x for x in args[:1]]
            locs = [l for x in a for l in ([x.loc] if x.loc is not None else []) + list(x.av.ref)]
            got = sorted({y for l in locs for y in l if isinstance(y, str) and y in ENTRY})
            done = [x for x in st.facts if x[0] == "did"]
            st.facts = frozenset(x for x in st.facts if x[0] != "did") | {("did",) + (done[0][1:] if done else ()) + ("%s(%s)" % (m, ",".join(got)),)}
            return [(st, RV(I.fresh("report"), None))]
        if m.endswith("_case") and cls.endswith("LaunchConfig") and not args:
            num = [k for k, d in pbdesc.load(gen_protos()[0] + "/all.desc")[0][".psi.LaunchConfig"]["fields"].items() if d["name"] == self.field]
            return [(st, RV(I.cst(num[0] if num else 0), None))]
        if m.startswith("has_") and m[4:] in ENTRY and not args:
            return [(st, RV(I.cst(m[4:] == self.field), None))]
        return super().special(I, st, n, b, cls, m, obj, args)

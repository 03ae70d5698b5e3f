"""C18 the configured elliptic curve is the one every implementation works on, on every platform."""
from prog import AnalysisError, fn_nodes, visit
from ai import AV, RV, E0
from flow import *
from c05 import fn
import models
from runner import analyse, SELF

SEL = "psi::CreateEccCryptor"
# curve -> (group the points live in, how an item becomes a point)
GROUP = {"CURVE_25519": "Curve25519", "CURVE_25519_ELLIGATOR2": "Curve25519", "CURVE_FOURQ": "FourQ", "CURVE_SM2": "sm2", "CURVE_SECP256K1": "secp256k1"}
HASH = {"CURVE_25519": "Sha256", "CURVE_25519_ELLIGATOR2": "HashToCurveElligator2", "CURVE_FOURQ": "Autonomous", "CURVE_SM2": "TryAndRehash_SM", "CURVE_SECP256K1": None}
NID = {"CURVE_SECP256K1": 714, "CURVE_SM2": 1172}
OPS = ("EccMask", "GetMaskLength", "SerializeEcPoint", "DeserializeEcPoint", "HashToCurve")


def enums(n):
    return [x["n"].rpartition("::")[2] for x in visit(n) if x.get("k") == "enum"]


class R(Flow):
    K = 12
    inline_max = 14

    def no_inline(self, I, fn):
        return fn.f.endswith("HashToCurveElligator2")

    def special(self, I, st, n, b, cls, m, obj, args):
        V = lambda lab=(), why="v": self.val(I, st, lab, None, why)
        if b.startswith("yacl::has"):
            out = []
            for v in (True, False):
                s2 = st.copy()
                s2.facts = frozenset(x for x in s2.facts if x[:2] != ("cpu", m)) | {("cpu", m, v)}
                out.append((s2, RV(I.cst(v), None)))
            known = [x for x in st.facts if x[:2] == ("cpu", m)]
            return [o for o in out if not known or o[1].av.t == I.cst(known[0][2]).t]
        if m == "Create" and cls.endswith("EcGroupFactory") and args:
            c, v = I.isc(args[0].av)
            l = (("h", I.fr.id, n["l"], "group"),)
            st.store[l] = I.fresh("group")
            st.store[l + ("@group",)] = I.cst(v if c else "?")
            return [(st, RV(AV(I.T.mk("&", l), E0, (l,), ()), None))]
        if m == "HashToCurve" and "EcGroup" in cls:
            e = enums(n["a"][0]) if n.get("a") else []
            return V(("how:" + (e[0] if len(e) == 1 else "?"),), why="point")
        if b in ("yacl::crypto::Sha256", "yacl::crypto::Sm3", "yacl::crypto::Blake3") or m == "HashToCurveElligator2" and not cls.endswith("Cryptor"):
            return V(("how:" + m,), why="point")
        if b in ("yacl::crypto::HashAlgorithm",):
            return V()
        return None


def made(I, st, rv):
    """Dynamic classes and objects a factory result points to."""
    out = []
    for l in rv.av.ref + tuple(rv.loc and I.rd(st, rv.loc).ref or ()):
        a = st.store.get(l + ("@cls",))
        if a is not None and I.isc(a)[0]:
            out.append((I.isc(a)[1], l))
    return list(dict.fromkeys(out))


def method(p, cls, name, n=None):
    """The definition of a virtual method as seen from the dynamic class."""
    seen, todo = set(), [cls]
    while todo:
        c = todo.pop(0)
        if c in seen:
            continue
        seen.add(c)
        fs = [f for f in p.byname.get(c + "::" + name, ()) if f.d.get("body")]
        if fs:
            return fs
        k = p.classes.get(c)
        if k:
            todo += [k["_T"][b].get("rec", "") for b in k["bases"]]
    return []


def consts(I, st, l):
    return {k[len(l):]: I.isc(v)[1] for k, v in I.subs(st, l) if I.isc(v)[0] and k[-1] != "@cls"}


def group(I, st, l):
    for k, v in I.subs(st, l):
        for r in v.ref:
            g = st.store.get(r + ("@group",))
            if g is not None:
                return I.isc(g)[1]
    return None


def run(cx):
    p = cx.prog(scope=("psi/cryptor/", "psi/algorithm/ecdh/", "psi/algorithm/dkpir/", "psi/legacy/"))
    cx.rule("the factories that turn a curve into an implementation are interpreted for every curve and every combination of CPU features; the class built, its group, its hash to curve and the curve it reports are compared with the curve asked for; "
            "every call that takes a curve is checked to pass a configured one")
    cx.trust("yacl curve groups, IPP and FourQ libraries implement the curve they are named after")
    wh = lambda f: "%s:%d" % (f.file, f.line)
    en = p.enums.get("psi::CurveType")
    if not en:
        raise AnalysisError("psi::CurveType not found")
    curves = {x["n"].rpartition("::")[2]: x["v"] for x in en["v"]}
    curves = {k: v for k, v in curves.items() if "INVALID" not in k and not k.startswith("CurveType_")}
    f = fn(p, SEL)
    arg = f.d["ps"][0]["n"]
    n = 0
    how = {}
    for name, v in sorted(curves.items()) + [("CURVE_INVALID_TYPE", 0), ("an unknown curve", 77)]:
        I, outs = analyse(p, R(), f, None, None, args={arg: lambda I, st: RV(I.cst(v), None)})
        if v in (0, 77):
            cx.check(not outs, "an invalid curve is refused", "CreateEccCryptor", "a cryptor is returned for %s" % name, wh(f))
            continue
        if name not in GROUP:
            raise AnalysisError("no reference for %s" % name)
        cx.check(outs, "curve is supported", name, "no cryptor is created for the curve on any platform", wh(f))
        for st, rv in outs:
            cs = made(I, st, rv)
            if not cs:
                raise AnalysisError("the class created for %s is not known" % name)
            for c, l in cs:
                n += 1
                g = group(I, st, l)
                if g is None:
                    miss = [o for o in OPS if not [x for x in method(p, c, o) if x.cls != "psi::IEccCryptor"]]
                    cx.check(not miss, "group of the curve", name + " by " + c, "%s has no group and does not implement %s itself" % (c, ", ".join(miss)), wh(f))
                    cx.check("Ipp" not in c or GROUP[name] == "Curve25519", "group of the curve", name + " by " + c, "IPP implements curve 25519, not the curve asked for", wh(f))
                else:
                    cx.check(g == GROUP[name], "group of the curve", name, "the cryptor created for %s works on the group '%s'" % (name, g), wh(f))
                # the curve it says it is
                k = consts(I, st, l)
                for gf in method(p, c, "GetCurveType"):
                    def setup(J, s):
                        for q, x in k.items():
                            s.store[SELF + q] = J.cst(x)
                    J, os2 = analyse(p, R(), gf, c, setup)
                    for s, r in os2:
                        cx.check(J.isc(r.av) == (True, v), "curve reported to the peer", name + " by " + c, "the cryptor created for %s reports curve %s" % (name, J.isc(r.av)[1]), wh(gf))
                hf = method(p, c, "HashToCurve")
                if not hf:
                    raise AnalysisError("HashToCurve of %s not found" % c)
                for h in hf[:1]:
                    J, os2 = analyse(p, R(), h, c, None)
                    for s, r in os2:
                        x = sorted(y[4:] for y in J.deep(s, r) if isinstance(y, str) and y.startswith("how:"))
                        how.setdefault(name, {}).setdefault(tuple(x), []).append(c)
                        cx.check(len(x) == 1 and (HASH[name] is None or x[0] == HASH[name]), "hash to curve", name + " by " + c, "items are mapped to points of %s with %s" % (name, x), wh(h))
        for st, rv in outs:
            pass
        cx.check(len(how.get(name, {})) == 1, "hash to curve is the same on all platforms", name, "implementations of %s map items to points differently: %s" % (name, how.get(name)), wh(f))
    # unbalanced PSI
    fam = {}
    fac = [g for k in p.byname for g in p.byname[k] if k in ("psi::ecdh::CreateEcdhOprfServer", "psi::ecdh::CreateEcdhOprfClient")]
    for g in fac:
        t = [q["n"] for q in g.d["ps"] if "CurveType" in g.T[q["t"]].get("s", "")]
        o = [q["n"] for q in g.d["ps"] if "OprfType" in g.T[q["t"]].get("s", "")]
        if len(t) != 1 or len(o) != 1:
            raise AnalysisError("parameters of %s not understood" % g.f)
        for name, v in sorted(curves.items()):
            I, outs = analyse(p, R(), g, None, None, args={t[0]: lambda I, st: RV(I.cst(v), None), o[0]: lambda I, st: RV(I.cst(0), None)})
            kinds = set()
            for st, rv in outs:
                for c, l in made(I, st, rv):
                    n += 1
                    q = "FourQ" if "FourQ" in c else "nid"
                    if q == "nid":
                        ids = [x for k, x in consts(I, st, l).items() if k[-1].startswith("ec_group")]
                        if not ids:
                            raise AnalysisError("group of %s not found" % c)
                        q = [z for z, i in NID.items() if i in ids] or ids
                        q = q[0]
                    else:
                        q = "CURVE_FOURQ"
                    kinds.add(q)
                    cx.check(q == name, "group of the curve", "%s/%d %s" % (g.f.rpartition("::")[2], len(g.d["ps"]), name), "the OPRF created for %s works on %s" % (name, q), wh(g))
            fam.setdefault(name, {})["%s/%d" % (g.f.rpartition("::")[2], len(g.d["ps"]))] = bool(kinds)
    for name, d in sorted(fam.items()):
        cx.check(len(set(d.values())) == 1, "both sides support the same curves", name, "the curve is supported by %s only" % ", ".join(sorted(k for k, x in d.items() if x)), wh(fac[0]))
    # dkpir
    g = fn(p, "psi::dkpir::FetchCurveName")
    for name, v in sorted(curves.items()):
        I, outs = analyse(p, R(), g, None, None, args={g.d["ps"][0]["n"]: lambda I, st: RV(I.cst(v), None)})
        for st, rv in outs:
            n += 1
            c, s = I.isc(rv.av)
            if not c and rv.loc is not None:
                c, s = I.isc(I.rd(st, rv.loc))
            if not c:
                raise AnalysisError("name returned by FetchCurveName not known")
            cx.check(s == GROUP[name], "group of the curve", "FetchCurveName " + name, "the name returned for %s is '%s'" % (name, s), wh(g))
    # the public configuration's curve
    tab = [v for k, v in p.globals.items() if k == "psi::api::kCurTypeMap"]
    for d in tab:
        pairs = [enums(x) for x in visit(d) if x.get("k") in ("ctor", "init") and len(enums(x)) == 2]
        got = {a: b for a, b in map(tuple, pairs)}
        if not got:
            raise AnalysisError("kCurTypeMap not understood")
        for a, b in sorted(got.items()):
            cx.check(a == b, "configured curve is kept", "kCurTypeMap " + a, "%s is turned into %s" % (a, b), "psi/apps/psi_launcher/launch.cc:1")
        for a in sorted(curves):
            cx.check(a in got, "configured curve is kept", "kCurTypeMap " + a, "%s cannot be configured: it is missing from the table" % a, "psi/apps/psi_launcher/launch.cc:1")
    # operators of the legacy interface
    n += legacy(cx, p, curves)
    # call sites
    plumbing(cx, p)
    cx.floor("implementations examined", n, 15)


class Made(R):
    """Records the curve every cryptor is created for."""
    def __init__(self):
        super().__init__()
        self.got = []
        self.world = 3

    def special(self, I, st, n, b, cls, m, obj, args):
        if b == SEL:
            if not I.dry:
                self.got.append((I.isc(args[0].av), I.where(n)))
            return self.val(I, st, (), None, "cryptor")
        return R.special(self, I, st, n, b, cls, m, obj, args)


def legacy(cx, p, curves):
    n = 0
    for g in p.byname.get("psi::CreateOperator", []):
        q = [x["n"] for x in g.d["ps"] if "MemoryPsiConfig" in g.T[x["t"]].get("s", "")]
        if not q or not g.d.get("body"):
            continue
        for name, v in sorted(curves.items()):
            def setup(I, st):
                st.store[(("p*", q[0]), "curve_type")] = I.cst(v)
                st.store[(("p", q[0]), "curve_type")] = I.cst(v)
            rule = Made()
            I, outs = analyse(p, rule, g, None, setup)
            for a, w in rule.got:
                n += 1
                cx.check(a == (True, v), "configured curve reaches the operator", "cryptor of %s %s" % (w.split(":")[0], name),
                         "a cryptor is created for %s although %s is configured" % (a[1] if a[0] else "another value", name), w)
            for st, rv in outs:
                for c, l in made(I, st, rv):
                    for k, a in I.subs(st, l):
                        if str(k[-1]).rstrip("_") == "curve_type":
                            n += 1
                            cx.check(I.isc(a) == (True, v), "configured curve reaches the operator", "%s %s" % (c, name),
                                     "the operator is given %s although %s is configured" % (I.isc(a)[1] if I.isc(a)[0] else "another value", name), "%s:%d" % (g.file, g.line))
    cx.floor("legacy operators examined", n, 12)
    return n


def curvearg(f, i, q):
    s = f.T[q["t"]].get("s", "") if q["t"] >= 0 else ""
    return s.replace("const ", "").replace("&", "").strip().endswith("CurveType") and "Elliptic" not in s


def leaf(n):
    while n.get("k") in ("cast", "conv", "copy", "expr") and isinstance(n.get("e"), dict):
        n = n["e"]
    return n


def plumbing(cx, p):
    """Every call that needs a curve is given one that was configured, not a constant or the default."""
    m = 0
    byu = {}
    for f in p.fns.values():
        if any(curvearg(f, i, q) for i, q in enumerate(f.d["ps"])):
            byu.setdefault(f.f.split("<")[0], []).append(f)
    for f in p.fns.values():
        if not f.d.get("body") or not f.file.startswith("psi/") or "test" in f.file or "benchmark" in f.file:
            continue
        for n in fn_nodes(f):
            if n["k"] not in ("call", "ctor") or not n.get("pt"):
                continue
            for i, t in enumerate(n["pt"]):
                s = f.T[t].get("s", "") if t >= 0 else ""
                if not s.replace("const ", "").replace("&", "").strip().endswith("CurveType") or "Elliptic" in s:
                    continue
                if "psi" not in n.get("f", ""):
                    continue
                m += 1
                site = "%s calls %s" % (f.f, n["f"])
                a = n["a"][i] if i < len(n.get("a", [])) else None
                w = "%s:%d" % (f.file, n["l"])
                e = enums(a) if a is not None else []
                dflt = a is None or a.get("k") in ("defarg", "none", "default") or a.get("dflt")
                guard = False
                if dflt or e:
                    # allowed where the configuration left the curve open: the call is under a test of the curve
                    guard = guarded(f, n)
                if f.f.split("::")[-1] == n["f"].split("::")[-1]:
                    guard = True
                cx.check(not dflt and not e or guard, "configured curve is passed on", site, "the call uses %s instead of the configured curve" % ("the default curve" if dflt else (e or ["?"])[0]), w)
    cx.count("calls that take a curve", m)
    cx.floor("calls that take a curve", m, 10)


def guarded(f, call):
    """The call sits under an if whose condition looks at the configured curve."""
    found = []

    def walk(n, under):
        if isinstance(n, list):
            for x in n:
                walk(x, under)
            return
        if not isinstance(n, dict):
            return
        if n is call:
            found.append(under)
            return
        if n.get("k") in ("if", "cond"):
            c = []
            c = [1 for x in visit(n["c"]) if "curve" in (str(x.get("n", "") or "") + str(x.get("f", ""))).lower()]
            walk(n["c"], under)
            for k in ("x", "y"):
                walk(n.get(k), under or bool(c))
            return
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                walk(v, under)
    walk(f.d["body"], False)
    return any(found)

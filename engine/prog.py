"""Build the extractor, run it over the translation units of the repository and load the resolved program."""
import glob, hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PSI_REPO", "/repo")
CACHE = os.environ.get("PSI_VERIF_CACHE", os.path.join(VERIF, ".cache"))
BASE_FLAGS = ["-std=c++17", "-w", "-maes", "-mpclmul", "-msse4.1", "-mavx2", "-mbmi2", "-DSPDLOG_FMT_EXTERNAL", "-DSPDLOG_ACTIVE_LEVEL=0"]
RES = "-resource-dir=/usr/lib/llvm-18/lib/clang/18"


class AnalysisError(Exception):
    """The analysis itself could not be carried out (neither a pass nor a violation)."""


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise AnalysisError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def walk(root, suf):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("_build", ".git")]
        for f in fs:
            if f.endswith(suf):
                out.append(os.path.join(d, f))
    return sorted(out)


def list_tus():
    """Every non-test translation unit of the library and its applications."""
    out = []
    for p in walk(os.path.join(REPO, "psi"), (".cc", ".cpp", ".c")):
        b = os.path.basename(p)
        if b.endswith("_test.cc") or "benchmark" in b or b.endswith("_bench.cc") or "test_utils" in b or "/testing/" in p:
            continue
        out.append(os.path.relpath(p, REPO))
    return out


def atomic_dir(target, fill):
    if os.path.isdir(target):
        return target
    tmp = target + ".tmp%d" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    fill(tmp)
    try:
        os.rename(tmp, target)
    except OSError:
        if not os.path.isdir(target):
            raise
        shutil.rmtree(tmp, ignore_errors=True)
    return target


def build_extractor():
    src = os.path.join(VERIF, "extract", "extract.cc")
    d = os.path.join(CACHE, "tool-" + digest([src]))

    def fill(t):
        sh(["clang++", "-std=c++17", "-O0", "-fno-rtti", "-w", "-I/usr/lib/llvm-18/include", src, "-o", t + "/psi-extract",
            "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"])
    return atomic_dir(d, fill) + "/psi-extract"


def gen_protos():
    protos = walk(os.path.join(REPO, "psi"), ".proto") + walk(os.path.join(REPO, "experiment"), ".proto")
    d = os.path.join(CACHE, "gen-" + digest(protos))

    def fill(t):
        st = os.path.join(VERIF, "stubs")
        sh(["protoc", "-I" + REPO, "-I" + st, "--cpp_out=" + t, "--descriptor_set_out=" + t + "/all.desc", "--include_imports"] + protos)
        sh(["protoc", "-I" + st, "--cpp_out=" + t, os.path.join(st, "yacl/link/link.proto")])
    return atomic_dir(d, fill), digest(protos)


def stub_digest():
    return digest([p for p in walk(os.path.join(VERIF, "stubs"), "") if os.path.isfile(p)])


def build_pch(gen, sd):
    hdr = os.path.join(VERIF, "extract", "pch.h")
    d = os.path.join(CACHE, "pch-" + digest([hdr], sd))

    def fill(t):
        sh(["clang++"] + BASE_FLAGS + ["-I" + os.path.join(VERIF, "stubs"), "-I" + gen, "-x", "c++-header", hdr,
            "-fpch-instantiate-templates", "-o", t + "/pch.pch", RES])
    return atomic_dir(d, fill) + "/pch.pch"


def extract(tus=None):
    """Returns {tu: parsed JSON}; runs the extractor on the current working tree."""
    os.makedirs(CACHE, exist_ok=True)
    if tus is None:
        tus = list_tus()
    missing = [t for t in tus if not os.path.exists(os.path.join(REPO, t))]
    if missing:
        raise AnalysisError("translation units vanished: %s" % missing)
    with ThreadPoolExecutor(8) as ex:
        ft = ex.submit(build_extractor)
        fg = ex.submit(gen_protos)
        gen, pd = fg.result()
        sd = digest([], stub_digest() + " ".join(BASE_FLAGS))
        pch = build_pch(gen, sd)
        tool = ft.result()
    # All inputs a TU can depend on: repo headers + protos + stubs + tool.
    hd = digest(walk(os.path.join(REPO, "psi"), (".h", ".hpp", ".inc")), pd + sd + os.path.basename(os.path.dirname(tool)))
    outd = os.path.join(CACHE, "json")
    os.makedirs(outd, exist_ok=True)

    def one(tu):
        src = os.path.join(REPO, tu)
        key = digest([src], hd)
        out = os.path.join(outd, key + ".json")
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            r = subprocess.run([tool, REPO, tmp, src, "--"] + BASE_FLAGS + ["-I" + REPO, "-I" + gen, "-I" + os.path.join(VERIF, "stubs"), "-include-pch", pch, RES],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if not os.path.exists(tmp):
                raise AnalysisError("extraction of %s failed: %s" % (tu, r.stdout[-3000:]))
            with open(tmp) as f:
                head = f.read(40)
            os.rename(tmp, out)
        with open(out) as f:
            return tu, json.load(f)
    with ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(one, tus))
    return res


class Fn:
    __slots__ = ("d", "T", "u", "f", "file", "line", "cls", "tu", "name")

    def __init__(self, d, T, tu):
        self.d, self.T, self.tu = d, T, tu
        self.u, self.f, self.file, self.line = d["u"], d["f"], d["file"], d["line"]
        self.cls = d.get("cls")
        self.name = self.f.split("::")[-1] if "operator" not in self.f else self.f

    def __repr__(self):
        return "%s (%s:%d)" % (self.f, self.file, self.line)


class Prog:
    def __init__(self, tus=None):
        t0 = time.time()
        self.tus = extract(tus)
        self.bad = sorted(t for t, j in self.tus.items() if j["errors"])
        self.fns, self.classes, self.enums, self.globals = {}, {}, {}, {}
        self.byname, self.overriders = {}, {}
        for tu, j in self.tus.items():
            T = j["types"]
            for d in j["fns"]:
                if d["u"] not in self.fns:
                    fn = Fn(d, T, tu)
                    self.fns[d["u"]] = fn
                    self.byname.setdefault(d["f"], []).append(fn)
            for c in j["classes"]:
                if c["c"] not in self.classes:
                    c["_T"] = T
                    self.classes[c["c"]] = c
            for e in j["enums"]:
                self.enums.setdefault(e["e"], e)
            for g in j["globals"]:
                if g["g"] not in self.globals:
                    g["_T"] = T
                    self.globals[g["g"]] = g
        self.bases, self.subs = {}, {}
        for c, d in self.classes.items():
            bs = [d["_T"][b].get("rec") for b in d["bases"]]
            self.bases[c] = [b for b in bs if b]
            for b in self.bases[c]:
                self.subs.setdefault(b, set()).add(c)
        for c, d in self.classes.items():
            for m in d["methods"]:
                for o in m.get("ov", []):
                    self.overriders.setdefault(o, []).append((c, m["u"]))
        self.t_load = time.time() - t0

    def find(self, name, n=None):
        """Functions whose qualified name ends with `name`."""
        r = [f for q, fs in self.byname.items() if q == name or q.endswith("::" + name) for f in fs]
        if not r:
            raise AnalysisError("anchor vanished: function %s" % name)
        return r

    def one(self, name):
        r = self.find(name)
        if len(r) > 1:
            ex = [f for f in r if f.f == name]
            if len(ex) == 1:
                return ex[0]
            raise AnalysisError("anchor ambiguous: %s -> %s" % (name, r))
        return r[0]

    def resolve(self, cls, usr, mname):
        """Most-derived implementation of virtual method `usr` for dynamic class cls (walks up)."""
        seen = set()

        def up(c):
            if c in seen or c not in self.classes:
                return None
            seen.add(c)
            for m in self.classes[c]["methods"]:
                if m["u"] == usr or self.overrides(m["u"], usr, c):
                    if m["u"] in self.fns:
                        return self.fns[m["u"]]
            for b in self.bases.get(c, []):
                r = up(b)
                if r:
                    return r
            return None
        return up(cls)

    def overrides(self, mu, usr, c):
        todo, seen = [mu], set()
        ovm = getattr(self, "_ovm", None)
        if ovm is None:
            ovm = self._ovm = {}
            for d in self.classes.values():
                for m in d["methods"]:
                    ovm[m["u"]] = m.get("ov", [])
        while todo:
            x = todo.pop()
            if x == usr:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += ovm.get(x, [])
        return False

    def is_sub(self, c, base):
        todo, seen = [c], set()
        while todo:
            x = todo.pop()
            if x == base:
                return True
            if x in seen:
                continue
            seen.add(x)
            todo += self.bases.get(x, [])
        return False


def kids(n):
    """Child AST nodes of a JSON node."""
    for k, v in n.items():
        if isinstance(v, dict):
            if "k" in v:
                yield v
            elif k == "v" and "id" in v:
                pass
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and "k" in x:
                    yield x
                elif isinstance(x, dict) and k == "caps" and "init" in x:
                    yield x["init"]


def visit(n):
    if not isinstance(n, dict):
        return
    st = [n]
    while st:
        x = st.pop()
        if "k" in x:
            yield x
        st.extend(reversed(list(kids(x))))


def fn_nodes(fn):
    if isinstance(fn, Fn):
        fn = fn.d
    for i in fn.get("inits", []):
        yield from visit(i.get("e"))
    yield from visit(fn.get("body"))

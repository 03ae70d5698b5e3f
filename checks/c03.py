"""C03 private keys do not flow to a send, a log line, an exception text, a report or a file that is not made for them."""
import re
from prog import AnalysisError, fn_nodes, visit, kids
from c04 import test
import models

K = "K"
NAME = re.compile(r"private_?key|priv_?key|secret_?key|^sk_?$|^sk_inv|_sk_?$|polynomial", re.I)
NOTNAME = re.compile(r"path|file|name|size|len|inited|proto$", re.I)
KEYTYPE = re.compile(r"elgamal::SecretKey|paillier\w*::SecretKey|phe::SecretKey")
BYTES = re.compile(r"vector<(unsigned|uint8_t|uint64_t|char|std::byte|int8_t)|std::array<|Span<|ByteContainerView|basic_string|std::string|MPInt|BigNum|BIGNUM|yacl::Buffer|unsigned char|uint8_t|uint128|__int128|string_view")
KEYFIELD = re.compile(r"priv_?key|private_key|secret_key|polynomial|^sk$", re.I)       # message fields that are made for a key
KEYPATH = re.compile(r"private_?key|priv_?key|secret_?key|sk_file|key_?file|UbPsiCacheMeta|meta_?(path|file|name)", re.I)
# what comes out is not the key: multiplication in the group, encryption, hashing, comparison
CLEAN = re.compile(r"EcGroup::(Mul|MulBase|MulDouble|MulInplace|MulBaseInplace|HashToCurve|PointEqual|Add|Sub)|^EC_POINT_mul|^crypto_scalarmult|^ecc_mul|^X25519|^mbx_|^(std::)?mem(cmp|chr)$|CRYPTO_memcmp|"
                   r"(Encryptor|Decryptor|Evaluator|KeyGenerator|OPRFSender)::|^yacl::crypto::(Sha|Blake|Sm3|Md5|Hash|SslHash|Hmac|KDF)|::(size|length|empty|capacity|max_size|BitCount|IsZero|count)$|^OPENSSL_cleanse|^RAND_|^sodium_memzero|"
                   r"^yacl::crypto::(Secure)?(Fast)?Rand|^yacl::crypto::(Secure)?FillRand|operator==|operator!=|operator<$|operator bool")
SENDS = re.compile(r"^yacl::link::(Context::(Send|SendAsync|SendAsyncThrottled|SendInternal|SendAsyncInternal)|AllGather|AllGatherV|Gather|GatherV|Broadcast|BroadcastV|Scatter|ScatterV|AllGatherVImpl)$|^apsi::network::.*::(send|send_response)$|^brpc::")
LOG = re.compile(r"^spdlog::|^(std::)?(printf|fprintf|puts|fputs|vprintf|perror|syslog)$|^std::basic_ostream")
FILEOUT = re.compile(r"OutputStream::(Write|Append)|^std::basic_(ofstream|fstream|ostream)(::|::basic_\w+::)(write|put)$|^(fwrite|write|pwrite)$")
STREAM = re.compile(r"basic_ofstream|basic_fstream|OutputStream|^FILE|__sFILE|_IO_FILE")
PB = ("SerializeToString", "SerializeAsString", "SerializeToArray", "SerializePartialToString", "SerializePartialToArray", "ByteSizeLong", "ShortDebugString", "DebugString", "SerializeToOstream", "SerializePartialToOstream")


class Sum:
    """What a function does with its parameters: labels of the result, of what it writes through parameters, flows into fields, and sinks."""
    __slots__ = ("ret", "out", "field", "sinks")

    def __init__(self):
        self.ret, self.out, self.field, self.sinks = set(), {}, {}, {}

    def key(self):
        return (len(self.ret), sum(map(len, self.out.values())), sum(map(len, self.field.values())), len(self.sinks))


class Taint:
    def __init__(self, p):
        self.p = p
        self.fields = set()         # (class or message, field) holding key material
        self.sum = {}
        self.found = {}
        self.over = {}
        self.readers = {}
        self.callers = {}
        self.nsink = set()
        self.sources = set()
        for f in p.fns.values():
            if f.cls and f.d.get("body"):
                self.over.setdefault(f.f.rpartition("::")[2], []).append(f)

    def derived(self, c):
        if not hasattr(self, "_sub"):
            self._sub = {}
            for k, d in self.p.classes.items():
                for b in d["bases"]:
                    self._sub.setdefault(d["_T"][b].get("rec", ""), set()).add(k)
        out, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += self._sub.get(x, ())
        return out

    def targets(self, n):
        f = self.p.fns.get(n.get("u"))
        b = models.strip(n.get("f") or "")
        if b in ("std::make_shared", "std::make_unique") and n.get("ta"):
            return []
        if n.get("virt") or f is not None and not f.d.get("body"):
            c, _, m = b.rpartition("::")
            sub = self.derived(c)
            fs = [g for g in self.over.get(m, []) if g.cls in sub and len(g.d["ps"]) == len(n.get("a", []))]
            return fs or ([f] if f is not None and f.d.get("body") else [])
        return [f] if f is not None and f.d.get("body") else []

    # ---- one function
    def go(self, f):
        s = Sum()
        self.f, self.s = f, s
        self.vars = {}
        self.decls = {}
        self.lams = {}
        self.vt = {}
        for i, q in enumerate(f.d["ps"]):
            self.vars[q.get("id")] = {("p", i)}
            if self.named(q.get("n"), q.get("t")):
                self.vars[q["id"]].add(K)
        self.pidx = {q.get("id"): i for i, q in enumerate(f.d["ps"])}
        self.changed = True
        rounds = 0
        while self.changed and rounds < 6:
            self.changed = False
            rounds += 1
            for i in f.d.get("inits") or []:
                if i.get("e") is not None:
                    l = self.ev(i["e"])
                    if i.get("m"):
                        self.field((f.cls, i["m"]), l)
            self.st(f.d["body"])
        for i, q in enumerate(f.d["ps"]):
            t = self.T(q.get("t"))
            if (t.get("ref") and not t.get("cref") or t.get("ptr") and not t.get("cptr")) and not t.get("rref"):
                l = self.vars[q["id"]] - {("p", i)}
                if self.named(q.get("n"), q.get("t")):
                    l.discard(K)
                if l:
                    s.out[i] = l
        return s

    def T(self, t):
        return self.f.T[t] if isinstance(t, int) and 0 <= t < len(self.f.T) else {}

    def named(self, name, t):
        t = self.T(t) if isinstance(t, int) else (t or {})
        s = t.get("s", "")
        if KEYTYPE.search(s):
            return True
        return bool(name and NAME.search(name) and not NOTNAME.search(name) and BYTES.search(s) and "path" not in s and not (t.get("int") and not t.get("ptr") and t.get("int") < 100))

    def where(self, n):
        return "%s:%s" % (self.file or self.f.file, n.get("l") or self.f.line)

    file = None

    def add(self, i, l):
        v = self.vars.setdefault(i, set())
        if not l <= v:
            v |= l
            self.changed = True

    def field(self, k, l):
        if not l:
            return
        for x in l:
            if x == K:
                if k not in self.fields:
                    self.fields.add(k)
                    self.dirty.add(k)
                    self.changed = True
            else:
                self.s.field.setdefault(k, set()).add(x)

    def isfield(self, cls, name, t):
        k = (cls, name)
        self.readers.setdefault(k, set()).add(self.f.u)
        return k in self.fields

    def taint(self, n, l):
        """What n designates now holds l."""
        while n is not None and n["k"] in ("cast", "conv", "copy"):
            n = n["e"]
        if n is None or not l:
            return
        k = n["k"]
        if k == "var":
            if n.get("g"):
                self.field(("global", n["g"]), l)
            else:
                self.add(n.get("id"), l)
        elif k == "mem":
            self.field((n.get("c") or "", n["n"]), l)
            b = n["b"]
            while b["k"] in ("cast", "conv", "copy"):
                b = b["e"]
            if b["k"] == "var" and not b.get("g") and not n.get("arrow"):
                pass
        elif k in ("idx",):
            self.taint(n["b"], l)
        elif k == "un":
            self.taint(n["e"], l)
        elif k == "bin":
            self.taint(n["x"], l)
        elif k == "opcall":
            self.taint(n["a"][0], l)
        elif k == "cond":
            self.taint(n.get("x"), l)
            self.taint(n.get("y"), l)
        elif k == "ctor" and n["a"] and n["a"][0]:
            self.taint(n["a"][0], l)
        elif k == "call":
            m = models.strip(n.get("f") or "").rpartition("::")
            if n.get("pb") and m[2].startswith(("mutable_", "add_")):
                self.message(m[0], m[2].partition("_")[2], l, n)
            elif n.get("o") is not None and not self.targets(n):
                self.taint(n["o"], l)
            elif m[2] in ("MakeSpan", "move", "forward", "ref", "addressof") and n["a"]:
                self.taint(n["a"][0], l)
            else:
                for g in self.targets(n):
                    # a method that hands out a member
                    for x in fn_nodes(g):
                        if x["k"] == "ret" and x.get("e") is not None:
                            y = x["e"]
                            while y["k"] in ("cast", "conv", "copy", "un"):
                                y = y["e"]
                            if y["k"] == "mem" and (self.f is not None):
                                self.field((y.get("c") or "", y["n"]), l)

    def message(self, msg, field, l, n):
        self.field((msg, field), l)
        if not KEYFIELD.search(field):
            self.sink("report", l, n, "field %s of message %s" % (field, msg.rpartition("::")[2]))

    def sink(self, kind, l, n, what, file=None):
        self.nsink.add((kind, self.f.u, n.get("l")))
        l = set(l)
        w = self.where(n)
        if kind == "file" and file is not None:
            if any(isinstance(x, str) and KEYPATH.search(x) for x in file):
                return
            file = frozenset(x for x in file if not isinstance(x, str))
        else:
            file = frozenset()
        if K in l and not file:
            self.found.setdefault((self.f.f, kind, what), (w, []))
        l2 = frozenset(l if file else l - {K})
        if l2:
            self.s.sinks[(kind, what, w, l2, file)] = 1

    # ---- which file is it
    def fileid(self, n, seen=()):
        """Names that say where a stream or path leads; parameters as ("p", i)."""
        out = set()
        for x in visit(n):
            k = x["k"]
            if k == "var" and x.get("id") is not None and not x.get("g"):
                out.add(x.get("n"))
                if x["id"] in self.pidx:
                    out.add(("p", self.pidx[x["id"]]))
                elif x["id"] in self.decls and x["id"] not in seen:
                    out |= self.fileid(self.decls[x["id"]], seen + (x["id"],))
            elif k == "mem":
                out.add(x["n"])
            elif k == "var":
                out.add(x.get("g"))
            elif k == "call":
                out.add(models.strip(x.get("f") or ""))
            elif k == "lambda":
                pass
        return {x for x in out if x}

    # ---- statements and expressions
    def st(self, n):
        if n is None or not isinstance(n, dict):
            return
        k = n.get("k")
        if k == "block":
            for x in n["s"]:
                self.st(x)
        elif k == "ret":
            l = self.ev(n.get("e"))
            if not self.inlam:
                t = self.T(self.f.d.get("rt"))
                if not self.plainint(t):
                    self.s.ret |= l
            else:
                self.inlam[-1] |= l
        elif k == "rfor":
            l = self.ev(n["r"])
            v = n["v"]
            self.vt[v.get("id")] = v.get("t")
            self.add(v.get("id"), l)
            for x in v.get("bind") or []:
                self.add(x.get("id") if isinstance(x, dict) else x, l)
            self.st(n["b"])
        elif k == "throw":
            l = self.ev(n.get("e"))
            if l:
                self.sink("exception", l, n, "the exception thrown")
        elif k in ("if", "for", "while", "do", "switch", "case", "default", "try", "catch"):
            for x in kids(n):
                self.st(x)
        elif k is not None:
            self.ev(n)

    inlam = []

    def plainint(self, t):
        return t.get("s") in ("bool", "const bool", "void") or t.get("enum") or t.get("rec") == "yacl::crypto::EcPoint"

    def ev(self, n):
        if n is None or not isinstance(n, dict) or "k" not in n:
            return set()
        k = n["k"]
        if k in ("cast", "conv", "copy", "expr"):
            return self.ev(n["e"])
        if k in ("int", "str", "bool", "flt", "enum", "sizeof", "null", "break", "continue", "this", "fn"):
            return set()
        if k == "var":
            if n.get("g"):
                return {K} if self.isfield("global", n["g"], None) else set()
            l = set(self.vars.get(n.get("id"), ()))
            if self.named(n.get("n"), n.get("t") if n.get("t") is not None else self.vt.get(n.get("id"))):
                l.add(K)
                self.sources.add((self.f.u, n.get("n")))
            return l
        if k == "decl":
            self.vt[n["id"]] = n.get("t")
            e = n.get("e")
            x = self.lamb(e)
            if x is not None:
                self.lams[n["id"]] = x
            if e is not None:
                self.decls[n["id"]] = e
                l = self.ev(e)
                t = self.T(n.get("t"))
                if t.get("s") == "bool" or (t.get("rec") or "").startswith(("std::shared_ptr<psi", "std::lock")):
                    l = set()
                self.add(n["id"], l)
                for y in n.get("bind") or []:
                    self.add(y.get("id") if isinstance(y, dict) else y, l)
            return set()
        if k == "mem":
            l = self.ev(n["b"])
            c = n.get("c") or ""
            t = self.ftype(c, n["n"])
            if self.isfield(c, n["n"], t):
                l = l | {K}
            if t is not None and NAME.search(n["n"]) and not NOTNAME.search(n["n"]) and (BYTES.search(t.get("s", "")) and t.get("int") is None or KEYTYPE.search(t.get("s", ""))):
                l = l | {K}
                self.sources.add((c, n["n"]))
            return l
        if k == "un":
            l = self.ev(n["e"])
            return set() if n["op"] == "!" else l
        if k == "bin":
            a, b = self.ev(n["x"]), self.ev(n["y"])
            return set() if n["op"] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||") else a | b
        if k == "assign":
            l = self.ev(n["y"])
            if n["op"] != "=":
                l = l | self.ev(n["x"])
            self.taint(n["x"], l)
            return l
        if k == "idx":
            self.ev(n["i"])
            return self.ev(n["b"])
        if k == "cond":
            self.ev(n.get("c"))
            return self.ev(n.get("x")) | self.ev(n.get("y"))
        if k == "lambda":
            self.lambda_(n, [])
            return set()
        if k == "opcall":
            return self.opcall(n)
        if k in ("call", "ctor"):
            return self.call(n)
        if k in ("block", "if", "for", "while", "do", "ret", "rfor", "throw", "switch", "case", "default", "try", "catch"):
            self.st(n)
            return set()
        l = set()
        for x in kids(n):
            l |= self.ev(x)
        return l

    def ftype(self, c, m):
        d = self.p.classes.get(c)
        if d is None:
            return None
        if "_ft" not in d:
            d["_ft"] = {x["n"]: d["_T"][x["t"]] for x in d["fields"] if x["t"] >= 0}
        return d["_ft"].get(m)

    def lamb(self, e):
        while e is not None and (e["k"] in ("cast", "conv", "copy") or e["k"] == "ctor" and (e.get("c") or "").startswith("std::function") and e["a"]):
            e = e["e"] if e["k"] != "ctor" else e["a"][0]
        return e if e is not None and e["k"] == "lambda" else None

    def lambda_(self, n, args):
        for q, a in zip(n["ps"], args):
            self.vt[q["id"]] = q.get("t")
            self.add(q["id"], a)
        for q in n["ps"]:
            self.vt.setdefault(q["id"], q.get("t"))
        for c in n.get("caps", []):
            pass
        if id(n) in self.open:
            return set()
        self.open.add(id(n))
        self.inlam = self.inlam + [set()]
        f, self.file = self.file, n.get("file") or self.file
        self.st(n["body"])
        self.file = f
        r = self.inlam[-1]
        self.inlam = self.inlam[:-1]
        self.open.discard(id(n))
        return r

    open = set()

    def opcall(self, n):
        op, a = n["op"], n["a"]
        if op == "()" and a[0]["k"] == "var" and a[0].get("id") in self.lams:
            return self.lambda_(self.lams[a[0]["id"]], [self.ev(x) for x in a[1:]])
        if op in ("=", "+=", "-=", "*=", "^=", "|="):
            l = set()
            for x in a[1:]:
                l |= self.ev(x)
            if op != "=":
                l |= self.ev(a[0])
            self.taint(a[0], l)
            return l
        f = n.get("f") or ""
        if op == "<<" and len(a) == 2:
            l = self.ev(a[1])
            s = self.base(a[0])
            l0 = self.ev(a[0])
            kind, w = self.stream(s)
            if l and kind == "log":
                self.sink("log", l, n, "an output stream")
            elif kind == "file":
                if l:
                    self.sink("file", l, n, "a file", self.fileid(s))
            elif s is not None and l:
                self.taint(s, l)
            return l | l0 if kind is None else set()
        ls = [self.ev(x) for x in a]
        l = set().union(*ls) if ls else set()
        ts = self.targets(n)
        if ts:
            return self.apply(n, ts, a[1:] if n.get("meth") else a, a[0] if n.get("meth") else None)
        if op in ("==", "!=", "<", ">", "<=", ">=", "!"):
            return set()
        return l

    def base(self, n):
        """The stream at the left end of a chain of <<."""
        while n is not None:
            while n["k"] in ("cast", "conv", "copy"):
                n = n["e"]
            if n["k"] == "opcall" and n["op"] == "<<":
                n = n["a"][0]
            elif n["k"] == "un" and n["op"] == "*":
                n = n["e"]
            else:
                return n
        return n

    def stream(self, n):
        if n is None:
            return None, None
        if n["k"] == "var" and n.get("g") in ("std::cout", "std::cerr", "std::clog"):
            return "log", None
        t = None
        if n["k"] == "var":
            t = self.T(n.get("t") if n.get("t") is not None else self.vt.get(n.get("id")))
            if n.get("id") in self.pidx:
                t = self.T(self.f.d["ps"][self.pidx[n["id"]]].get("t"))
        elif n["k"] == "mem":
            t = self.ftype(n.get("c") or "", n["n"]) or self.T(n.get("t"))
        else:
            t = self.T(n.get("t"))
        s = t.get("s", "") + (t.get("rec") or "")
        if "stringstream" in s or "ostringstream" in s:
            return None, None
        if re.search(r"ofstream|fstream|OutputStream|basic_ostream|std::ostream", s):
            return "file", None
        return None, None

    def call(self, n):
        b = models.strip(n.get("f") or "")
        if n["k"] == "ctor":
            c = n.get("c") or ""
        o = n.get("o")
        args = [x for x in n.get("a", []) if x is not None]
        m = b.rpartition("::")[2]
        lo = self.ev(o) if o is not None else set()
        ls = [self.ev(x) for x in args]
        l = set().union(*ls) if ls else set()
        for x in args:
            y = x
            while y is not None and y["k"] in ("cast", "conv", "copy"):
                y = y["e"]
            if y is not None and y["k"] == "var" and y.get("id") in self.lams:
                self.lambda_(self.lams[y["id"]], [])
        if m in PB and o is not None:
            n = dict(n, pb=1)
        if n.get("pb") and o is not None:
            msg = b.rpartition("::")[0]
            for pre in ("set_", "add_", "mutable_"):
                if m.startswith(pre):
                    fld = m[len(pre):]
                    if args and pre != "mutable_" and l:
                        self.message(msg, fld, l, n)
                    return {K} if pre == "mutable_" and self.isfield(msg, fld, None) else set()
            if m in PB:
                whole = lo | ({K} if self.carries(o, msg) else set())
                for x in args:
                    self.taint(x, whole)
                    if m.endswith("Ostream") and whole:
                        self.sink("file", whole, n, "a file", self.fileid(x))
                return whole if m not in ("ByteSizeLong",) else set()
            if m.startswith(("Parse", "Merge")):
                return set()
            fld = m
            k = (msg, fld)
            if KEYFIELD.search(fld) and not m.endswith("_size") and BYTES.search(self.T(n.get("t")).get("s", "") + "std::string"):
                t = self.T(n.get("t"))
                if not NOTNAME.search(fld) and (t.get("int") in (None, 64)):
                    self.sources.add(k)
                    return {K}
            return {K} if self.isfield(msg, fld, None) else set()
        if SENDS.search(b):
            if l:
                self.sink("network", l, n, "what %s sends" % m)
            return set()
        if LOG.search(b) and not b.startswith("std::basic_ostream"):
            if l:
                self.sink("log", l, n, "a log line")
            return set()
        if b == "yacl::EnforceMsg":
            if l:
                self.sink("exception", l, n, "an exception text")
            return set()
        if FILEOUT.search(b) or m in ("Write", "write") and o is not None and self.stream(self.base(o))[0] == "file":
            if l:
                s = o if o is not None else args[-1]
                self.sink("file", l, n, "a file", self.fileid(s))
            return set()
        ts = self.targets(n)
        if b in ("std::make_shared", "std::make_unique") and n.get("ta") and n["ta"][0] >= 0:
            c = self.T(n["ta"][0]).get("rec", "")
            ts = [g for g in self.p.byname.get(c + "::" + c.rpartition("::")[2], []) if g.d.get("body") and len(g.d["ps"]) == len(args)]
            if ts:
                self.apply(n, ts, args, None)
                return set()
        if n["k"] == "ctor" and ts:
            self.apply(n, ts, args, None)
            c = n.get("c") or ""
            d = self.p.classes.get(c)
            return set() if c.startswith("psi::") else l
        if CLEAN.search(b):
            return set()
        if ts:
            return self.apply(n, ts, args, o)
        if b.startswith(("std::shared_ptr<psi", "absl::Cleanup")):
            return set()
        # a library function
        if o is not None and not n.get("constm") and l and m not in ("Read", "at", "operator[]") and not b.startswith("psi::"):
            self.taint(o, l)
        pts = list(n.get("pt", []))
        for i, x in enumerate(args):
            t = self.T(pts[i]) if i < len(pts) else {}
            s = t.get("s", "")
            if (t.get("ref") or t.get("ptr")) and not t.get("rref") and not t.get("cref") and not t.get("cptr") and not s.startswith("const "):
                rest = lo.union(*[y for j, y in enumerate(ls) if j != i]) if len(ls) > 1 or lo else set()
                self.taint(x, rest)
        if b in ("std::copy", "std::copy_n", "std::transform", "std::move", "std::memcpy", "memcpy", "std::reverse_copy") and len(args) > 2:
            self.taint(args[2] if b.startswith("std::copy") or b == "std::transform" else args[0], set().union(*ls))
        t = self.T(n.get("t"))
        if self.plainint(t):
            return set()
        return lo | l

    def carries(self, o, msg):
        """Does a message being serialised hold a key (in a field of its type)?"""
        while o is not None and o["k"] in ("cast", "conv", "copy"):
            o = o["e"]
        for c in {msg, self.rec(o)}:
            if c and any(k[0] == c for k in self.fields):
                return True
        return False

    def rec(self, o):
        if o["k"] == "var":
            return self.T(o.get("t") if o.get("t") is not None else self.vt.get(o.get("id"))).get("rec")
        if o["k"] == "mem":
            return (self.ftype(o.get("c") or "", o["n"]) or {}).get("rec")
        return self.T(o.get("t")).get("rec") if o.get("t") is not None else None

    def apply(self, n, ts, args, o):
        ls = [self.ev(x) for x in args]
        out = set()
        for g in ts:
            self.callers.setdefault(g.u, set()).add(self.f.u)
            s = self.sum.get(g.u)
            if s is None:
                continue

            def sub(l):
                r = set()
                for x in l:
                    if x == K:
                        r.add(K)
                    elif x[1] < len(ls):
                        r |= ls[x[1]]
                return r
            out |= sub(s.ret)
            for i, q in enumerate(g.d["ps"]):
                # what is handed over as a key is one
                t = g.T[q["t"]] if q["t"] >= 0 else {}
                if i < len(args) and not t.get("int") and (q["n"] and NAME.search(q["n"]) and not NOTNAME.search(q["n"]) and BYTES.search(t.get("s", "")) or
                                                           any(("p", i) in l and NAME.search(k[1]) and not NOTNAME.search(k[1]) and k[0].startswith("psi::") for k, l in s.field.items())):
                    if self.held(args[i]):
                        self.taint(args[i], {K})
            for i, l in s.out.items():
                if i < len(args):
                    self.taint(args[i], sub(l))
            for k, l in s.field.items():
                self.field(k, sub(l))
            for (kind, what, w, l, file) in s.sinks:
                l2 = sub(l)
                if not l2:
                    continue
                names = set()
                for x in file:
                    if x[1] < len(args):
                        names |= self.fileid(args[x[1]])
                self.through(kind, what, w, l2, names if file else None, n)
        t = self.T(n.get("t"))
        return set() if self.plainint(t) else out

    def held(self, n):
        """A variable or member of bytes (not a setting, a path or a number)."""
        while n is not None and (n["k"] in ("cast", "conv", "copy") or n["k"] == "ctor" and n["a"] and n["a"][0] or n["k"] == "call" and n["a"] and models.strip(n.get("f") or "").startswith("absl::Make")):
            n = n["e"] if n["k"] in ("cast", "conv", "copy") else n["a"][0]
        if n is None or n["k"] not in ("var", "mem"):
            return False
        if n["k"] == "mem":
            t = self.ftype(n.get("c") or "", n["n"]) or {}
        else:
            t = self.T(n.get("t") if n.get("t") is not None else self.vt.get(n.get("id")))
        return bool(BYTES.search(t.get("s", ""))) and not t.get("int")

    def through(self, kind, what, w, l, names, n):
        if names is not None and any(isinstance(x, str) and KEYPATH.search(x) for x in names):
            return
        file = frozenset(x for x in names if not isinstance(x, str)) if names is not None else frozenset()
        if K in l and not file:
            self.found.setdefault((self.f.f, kind, what), (w, ["%s (%s)" % (self.f.f, self.where(n))]))
        l2 = frozenset(l if file else l - {K})
        if l2:
            self.s.sinks[(kind, what, w, l2, file)] = 1

    # ---- everything
    def solve(self):
        fs = [f for f in self.p.fns.values() if f.d.get("body") and f.file.startswith("psi/") and not test(f) and "Moc" not in (f.cls or "")]
        self.n = len(fs)
        by = {f.u: f for f in fs}
        todo = list(by)
        inq = set(todo)
        runs = 0
        while todo:
            u = todo.pop(0)
            inq.discard(u)
            self.dirty = set()
            self.open = set()
            self.inlam = []
            self.file = None
            s = self.go(by[u])
            runs += 1
            if runs > 60000:
                raise AnalysisError("the taint analysis does not settle")
            old = self.sum.get(u)
            self.sum[u] = s
            again = set()
            if old is None and (s.ret or s.out or s.field or s.sinks) or old is not None and old.key() != s.key():
                again |= self.callers.get(u, set())
            for k in self.dirty:
                again |= self.readers.get(k, set())
            for x in again:
                if x in by and x not in inq:
                    inq.add(x)
                    todo.append(x)
        self.runs = runs


def run(cx):
    for r in ("not sent", "not logged", "not in an exception", "not reported", "not in another file"):
        cx.rule(r)
    p = cx.prog()
    t = Taint(p)
    t.solve()
    rule = {"network": "not sent", "log": "not logged", "exception": "not in an exception", "report": "not reported", "file": "not in another file"}
    verb = {"network": "reaches the network", "log": "reaches the log", "exception": "reaches an exception's text", "report": "is put in a message that is not made for it", "file": "is written to a file that is not made for it"}
    for (f, kind, what), (w, path) in sorted(t.found.items()):
        cx.fail(rule[kind], "%s: %s" % (f, what), "key material %s" % verb[kind], w, path)
    bad = {f for (f, kind, what) in t.found}
    for s in sorted({(str(a), str(b)) for a, b in t.sources}):
        a = p.fns[s[0]].f if s[0] in p.fns else s[0]
        cx.ok("not sent", "key material %s of %s" % (s[1], a))
    cx.count("functions analysed", t.n)
    cx.count("function passes", t.runs)
    cx.count("fields holding key material", len(t.fields))
    cx.count("places keys are read", len(t.sources))
    cx.floor("places keys are read", len(t.sources), 15)

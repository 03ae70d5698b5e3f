"""Minimal decoder of a compiled protobuf FileDescriptorSet (no protobuf runtime needed)."""


def fields(b):
    i, n = 0, len(b)

    def vi():
        nonlocal i
        r = s = 0
        while True:
            c = b[i]
            i += 1
            r |= (c & 127) << s
            if c < 128:
                return r
            s += 7
    while i < n:
        k = vi()
        t = k & 7
        if t == 0:
            v = vi()
        elif t == 2:
            l = vi()
            v = b[i:i + l]
            i += l
        elif t == 5:
            v = b[i:i + 4]
            i += 4
        elif t == 1:
            v = b[i:i + 8]
            i += 8
        else:
            raise ValueError("wire type %d" % t)
        yield k >> 3, v


def group(b):
    d = {}
    for k, v in fields(b):
        d.setdefault(k, []).append(v)
    return d


TY = {1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool", 9: "string", 10: "group", 11: "message", 12: "bytes",
      13: "uint32", 14: "enum", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64"}
LB = {1: "single", 2: "required", 3: "repeated"}


def load(path):
    """{"file": {...}} -> messages: {full name: {file, fields{num:{name,type,card,oneof,json}}, reserved}}; enums."""
    msgs, enums = {}, {}

    def s(d, k, df=""):
        return d[k][0].decode() if k in d else df

    def enum(b, pre, fl):
        d = group(b)
        vals = {}
        for v in d.get(2, []):
            e = group(v)
            x = e.get(2, [0])[0]
            vals[s(e, 1)] = x if x < 1 << 63 else x - (1 << 64)
        enums[pre + s(d, 1)] = {"file": fl, "values": vals}

    def msg(b, pre, fl):
        d = group(b)
        nm = pre + s(d, 1)
        ones = [s(group(o), 1) for o in d.get(8, [])]
        fs = {}
        for f in d.get(2, []):
            g = group(f)
            ty = TY[g.get(5, [0])[0]]
            tn = s(g, 6)
            p3 = bool(g.get(17, [0])[0])
            on = ones[g[9][0]] if 9 in g and not p3 else ""
            opt = group(g[8][0]) if 8 in g else {}
            fs[str(g.get(3, [0])[0])] = {"name": s(g, 1), "json": s(g, 10), "type": ty + (" " + tn if tn else ""), "card": LB[g.get(4, [1])[0]] + (" presence" if p3 else ""),
                                         "oneof": on, "packed": opt.get(2, [None])[0]}
        rs = []
        for r in d.get(9, []):
            g = group(r)
            rs.append([g.get(1, [0])[0], g.get(2, [0])[0]])
        msgs[nm] = {"file": fl, "fields": fs, "reserved": rs, "map": bool(group(d[7][0]).get(7)) if 7 in d else False}
        for n in d.get(3, []):
            msg(n, nm + ".", fl)
        for n in d.get(4, []):
            enum(n, nm + ".", fl)
    for k, v in fields(open(path, "rb").read()):
        if k != 1:
            continue
        d = group(v)
        fl = s(d, 1)
        pre = "." + s(d, 2) + "." if 2 in d else "."
        for m in d.get(4, []):
            msg(m, pre, fl)
        for e in d.get(5, []):
            enum(e, pre, fl)
    return msgs, enums

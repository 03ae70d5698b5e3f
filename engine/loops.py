"""Shapes of counting loops, read from the syntax tree."""
from prog import visit, kids


def unwrap(n):
    while isinstance(n, dict) and n.get("k") in ("cast", "conv", "copy", "paren") and isinstance(n.get("e"), dict):
        n = n["e"]
    return n


def same(a, b):
    """Same expression (by structure, ignoring positions)."""
    a, b = unwrap(a), unwrap(b)
    if isinstance(a, dict) and isinstance(b, dict):
        ks = lambda d: {k: v for k, v in d.items() if k not in ("l", "t", "pt", "c") or k == "c" and not isinstance(v, int)}
        x, y = ks(a), ks(b)
        return x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def counting(n):
    """{'id','start','op','bound','step'} of  for (T i = start; i op bound; i += step)  whose body leaves i alone; else None."""
    if n.get("k") != "for" or not n.get("i") or not n.get("c") or not n.get("n"):
        return None
    d = n["i"]
    ds = d.get("ds") or d.get("d") or [d] if d.get("k") in ("decl", "decls") else None
    if isinstance(ds, dict):
        ds = [ds]
    if not ds:
        return None
    c = unwrap(n["c"])
    if c.get("k") != "bin" or c.get("op") not in ("<", "!=", "<=", ">"):
        return None
    x, y, op = unwrap(c["x"]), unwrap(c["y"]), c["op"]
    ids = {q.get("id"): q for q in ds if q.get("k") == "decl" or q.get("id")}
    extra = 0
    z = x
    if z.get("k") == "bin" and z.get("op") == "+" and unwrap(z["y"]).get("cv", unwrap(z["y"]).get("v")) is not None:
        extra, z = unwrap(z["y"]).get("cv", unwrap(z["y"]).get("v")), unwrap(z["x"])
    if z.get("k") == "var" and z.get("id") in ids:
        v, b = z, y
    elif y.get("k") == "var" and y.get("id") in ids and op in (">", "!="):
        v, b, op, extra = y, x, {">": "<", "!=": "!="}[op], 0
    else:
        return None
    i = unwrap(n["n"])
    if i.get("k") == "un" and i.get("op") in ("++",) and unwrap(i["e"]).get("id") == v["id"]:
        step = 1
    elif i.get("k") == "assign" and i.get("op") == "+=" and unwrap(i["x"]).get("id") == v["id"]:
        step = const(i["y"])
    else:
        return None
    for w in visit(n["b"]):
        if w.get("k") == "assign" and unwrap(w["x"]).get("id") == v["id"] or w.get("k") == "un" and w.get("op") in ("++", "--") and unwrap(w["e"]).get("id") == v["id"]:
            return None
    return {"id": v["id"], "start": ids[v["id"]].get("e"), "op": op, "bound": b, "step": step, "extra": extra, "n": n}


def const(e):
    e = unwrap(e)
    if not isinstance(e, dict):
        return None
    v = e.get("cv", e.get("v") if e.get("k") == "int" else None)
    return v if isinstance(v, int) else None


def size_of(e):
    """The container whose size() this is."""
    e = unwrap(e)
    if isinstance(e, dict) and e.get("k") == "call" and (e.get("f") or "").rpartition("::")[2] in ("size", "length") and isinstance(e.get("o"), dict):
        return unwrap(e["o"])
    return None

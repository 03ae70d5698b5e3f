"""C11 compatibility of the published message definitions."""
import json, os
from prog import AnalysisError, gen_protos, VERIF
import pbdesc

TABLE = os.path.join(VERIF, "frozen", "schema.json")
# Messages of these files only travel in the binary encoding, where names do not matter.
BINARY = ("psi/utils/serializable.proto", "psi/algorithm/spiral/serializable.proto", "psi/algorithm/sealpir/serializable.proto", "psi/algorithm/dkpir/secret_key.proto",
          "experiment/")
# Changes of scalar type that keep both encodings readable for every value the old type could hold.
WIDEN = {("int32", "int64"), ("uint32", "uint64")}


def current():
    d, _ = gen_protos()
    m, e = pbdesc.load(d + "/all.desc")
    keep = lambda x: {k: v for k, v in x.items() if not v["file"].startswith(("google/", "yacl/"))}
    return keep(m), keep(e)


def run(cx):
    cx.rule("every message, field and enum value of the frozen published schema exists in the descriptors compiled from the current .proto files with the same number, type, cardinality and "
            "oneof membership (and the same name where the message is also read or written as JSON); no number of the published schema carries a different meaning")
    cx.trust("frozen/schema.json is the schema published at the pinned commit", "protoc compiles the definitions as the product's build does")
    fz = json.load(open(TABLE))
    msgs, enums = current()
    nf = nv = 0
    for nm, m in sorted(fz["messages"].items()):
        c = msgs.get(nm)
        binary = m["file"].startswith(BINARY)
        if c is None:
            cx.fail("message", nm, "published message %s no longer exists" % nm, m["file"])
            continue
        cx.ok("message", nm)
        for num, f in sorted(m["fields"].items(), key=lambda x: int(x[0])):
            nf += 1
            site = "%s.%s" % (nm, f["name"])
            g = c["fields"].get(num)
            if g is None:
                moved = [k for k, v in c["fields"].items() if v["name"] == f["name"]]
                cx.fail("field", site, "published field number %s (%s) %s" % (num, f["name"], "is now number " + moved[0] if moved else "no longer exists"), c["file"])
                continue
            if not binary and (g["name"] != f["name"] or g["json"] != f["json"]):
                cx.fail("field", site, "field number %s was %s and is now %s (JSON %s -> %s)" % (num, f["name"], g["name"], f["json"], g["json"]), c["file"])
                continue
            if g["type"] != f["type"] and (f["type"], g["type"]) not in WIDEN:
                cx.fail("field", site, "field changed its type from %s to %s" % (f["type"], g["type"]), c["file"])
                continue
            if g["card"] != f["card"] and not (f["card"] == "single" and g["card"] == "single presence"):
                cx.fail("field", site, "field changed from %s to %s" % (f["card"], g["card"]), c["file"])
                continue
            if g["oneof"] != f["oneof"] and not (binary and bool(g["oneof"]) == bool(f["oneof"])):
                cx.fail("field", site, "field changed its oneof from '%s' to '%s'" % (f["oneof"], g["oneof"]), c["file"])
                continue
            cx.ok("field", site)
        for num, g in c["fields"].items():
            if num not in m["fields"] and any(a <= int(num) < b for a, b in m["reserved"]):
                cx.fail("reserved", "%s.%s" % (nm, num), "number %s of a retired field is used again (%s)" % (num, g["name"]), c["file"])
        for a, b in m["reserved"]:
            cx.ok("reserved", "%s.%d" % (nm, a)) if (("reserved", "%s.%d" % (nm, a)) not in cx.obl) else None
        if not binary:
            names = {}
            for num, g in c["fields"].items():
                names.setdefault(g["json"], []).append(num)
            for j, ns in names.items():
                if len(ns) > 1:
                    cx.fail("json-name", "%s.%s" % (nm, j), "fields %s share the JSON name %s" % (ns, j), c["file"])
    for nm, e in sorted(fz["enums"].items()):
        c = enums.get(nm)
        if c is None:
            cx.fail("enum", nm, "published enum %s no longer exists" % nm, e["file"])
            continue
        binary = e["file"].startswith(BINARY)
        cx.ok("enum", nm)
        for v, num in sorted(e["values"].items(), key=lambda x: x[1]):
            nv += 1
            site = "%s.%s" % (nm, v)
            if binary:
                cx.check(num in c["values"].values(), "enum-value", site, "published value %d no longer exists" % num, c["file"])
            else:
                cx.check(c["values"].get(v) == num, "enum-value", site, "published value %s=%d is now %s" % (v, num, c["values"].get(v)), c["file"])
        for v, num in c["values"].items():
            old = [k for k, x in e["values"].items() if x == num]
            if old and v not in e["values"] and not any(o in c["values"] for o in old):
                cx.fail("enum-value", "%s=%d" % (nm, num), "number %d of %s now means %s" % (num, "/".join(old), v), c["file"])
    cx.floor("published fields compared", nf, 150)
    cx.floor("published enum values compared", nv, 40)


if __name__ == "__main__":
    m, e = current()
    json.dump({"messages": m, "enums": e}, open(TABLE, "w"), indent=1, sort_keys=True)

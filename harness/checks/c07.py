"""C07: from_dict accepts exactly the well-formed descriptions and reads them as written."""
import copy
import json

import enc
import gen
from vlib import call

I32, I64 = 2**31 - 1, 2**63 - 1
BITS = [1, 2, 8, 31, 32, 33, 64, 128, I32 - 1, I32, I32 + 1, 0, -1, -(2**40), 2**63, None, "32"]
LENS = [1, 2, 16, 2**31, I64 - 1, I64, I64 + 1, 0, -1, -(2**70), 2**80, None, "8"]
BAD_ALIASES = ["B", "a.", ".b", "a..b", "1a.b", "a.1b", "a b.c", "a.b-c", "é.b", "a.ü", "int32", "", "a.b ", "a/b.c"]
OK_ALIASES = ["a.b", "_._", "A.b_9.C", "com.example.Type", "x.y.z.w.v"]


def norm(x):
    """TLC prints an empty function as [] and leaves objects without key order."""
    if x["t"] == "obj":
        if x["m"] == []:
            x["m"] = {}
        x["ks"] = sorted(x["m"])
        for v in x["m"].values():
            norm(v)
    elif x["t"] == "arr":
        for v in x["c"]:
            norm(v)
    return x


def desc(t, r):
    """Some description of type t, using shorthands at random."""
    a = {k: enc.unj(v) for k, v in enc.attrs(t).items()}
    k = t["k"]
    c = [desc(x, r) for x in t["c"]]
    if k == "proxy":
        d = {"type": a.pop("alias"), **a}
    else:
        for n, v in (("signed", True), ("variable", True)):
            if n in a and a[n] == v and k != "proxy" and r.random() < 0.7:
                del a[n]
        d = {"type": k, **a}
        if k == "list":
            d["values"] = c[0]
        elif k == "map":
            d["keys"], d["values"] = c
        elif k == "struct":
            if c or r.random() < 0.5:
                d["fields"] = c
        elif k == "union":
            plain = [x for x in c if x == "null"]
            if plain and "default" in a and r.random() < 0.6 and not any(
                    isinstance(x, dict) and x.get("type") == "null" for x in c):
                d["optional"] = True
                if r.random() < 0.7:
                    c.remove("null")
                if a["default"] is None and r.random() < 0.5:
                    d.pop("default")
                if len(c) == 1 and isinstance(c[0], dict) and not ({"name", "default", "optional"} & set(c[0])) and c[0][
                        "type"] != "union" and isinstance(c[0]["type"], str) and not (set(d) - {"type", "default", "optional", "name"}) and r.random() < 0.8:
                    d = {**c[0], **{n: v for n, v in d.items() if n != "type"}}
                    return d
                d["types"] = c
            elif r.random() < 0.4 and "optional" not in d:
                d["type"] = c
            else:
                d["types"] = c
    if r.random() < 0.05:
        for n in ("doc", "logical") + (("alias",) if k != "proxy" else ()):
            d.setdefault(n, None)
    if r.random() < 0.04 and "optional" not in d:
        d["optional"] = False
    items = list(d.items())
    r.shuffle(items)
    d = dict(items)
    if d.keys() == {"type"} and r.random() < 0.8:
        return d["type"]
    if k == "union" and d.keys() == {"type", "types"} and r.random() < 0.7:
        return d["types"]
    return d


def spots(d, out=None):
    """All dictionaries that are type descriptions in d."""
    out = [] if out is None else out
    if isinstance(d, list):
        for x in d:
            spots(x, out)
    elif isinstance(d, dict):
        out.append(d)
        if isinstance(d.get("type"), list):
            spots(d["type"], out)
        ty = d.get("type")
        for key, kinds in (("values", ("list", "map")), ("keys", ("map",)), ("fields", ("struct",)), ("types", ("union",))):
            if key in d and ty in kinds:
                spots(d[key], out)
    return out


def mutate(d, r):
    s = spots(d)
    if not s:
        return d
    x = r.choice(s)
    ty = x.get("type")
    ops = ["droptype", "alias", "badtype"]
    if ty in ("int", "float"):
        ops += ["bits"] * 4 + ["dropbits"]
    if ty in ("string", "bytes"):
        ops += ["bytes"] * 4 + ["fixed"] * 2
    if ty == "list":
        ops += ["length"] * 4 + ["fixedlist"] * 2 + ["dropvalues"]
    if ty == "map":
        ops += ["dropkeys", "dropvalues"]
    if ty in ("enum", "union"):
        ops += ["dropkids"]
    op = r.choice(ops)
    if op == "droptype":
        if r.random() < 0.5:
            x.pop("type", None)
        else:
            x["type"] = None
    elif op == "badtype":
        x["type"] = r.choice([3, True, {"type": "bool"}, 1.5])
    elif op == "alias":
        if ty in ("bool", "int", "float", "string", "bytes", "struct", "list", "map", "enum") and not x.get("optional"):
            x["alias"] = r.choice(OK_ALIASES[:2] if r.random() < 0.5 else BAD_ALIASES + OK_ALIASES)
    elif op == "bits":
        x["bits"] = r.choice(BITS)
    elif op == "dropbits":
        x.pop("bits", None)
    elif op == "bytes":
        x["bytes"] = r.choice(LENS)
    elif op == "fixed":
        x["variable"] = False
        if r.random() < 0.5:
            x.pop("bytes", None)
    elif op == "length":
        x["length"] = r.choice(LENS)
    elif op == "fixedlist":
        x["variable"] = False
        if r.random() < 0.5:
            x.pop("length", None)
    elif op == "dropvalues":
        x.pop("values", None)
    elif op == "dropkeys":
        x.pop("keys", None)
    elif op == "dropkids":
        x.pop("symbols" if ty == "enum" else "types", None)
    return d


def in_domain(d, top=True):
    """Leave out descriptions whose meaning the documentation does not fix."""
    for x in spots(d):
        if x.get("optional") and isinstance(x.get("type"), list):
            return False
        if x.get("optional") and x.get("type") == "union" and any(
                isinstance(y, dict) and y.get("type") == "null" for y in x.get("types", ()) or ()):
            return False
        if x.get("optional") and x.get("type") == "null":
            return False
        if x.get("optional") and not isinstance(x.get("type"), str):
            return False
        ty = x.get("type")
        if isinstance(ty, str) and ty not in enc.KINDS and "alias" in x:
            return False
        if ty == "" or ty == "proxy":
            return False
    return True


def corpus():
    """Systematic edges: every bound of every sized type and every near miss of a qualified alias."""
    out = []
    for k, attr, vals in (("int", "bits", BITS), ("float", "bits", BITS), ("string", "bytes", LENS), ("bytes", "bytes", LENS), ("list", "length", LENS)):
        for v in vals:
            for extra in ({},) + (({"signed": False}, {"signed": True}) if k == "int" else () if k == "float" else ({"variable": False}, {"variable": True})):
                d = {"type": k, attr: v, **extra, **({"values": "bool"} if k == "list" else {})}
                out += [d, {"type": "struct", "fields": ["bool", d]}, {"type": "list", "values": d}, {"type": "map", "keys": "string", "values": d},
                        {"type": "map", "keys": d, "values": "bool"}, {"type": "union", "types": ["null", d]}]
    al = set(BAD_ALIASES + OK_ALIASES)
    for a in ("a.b", "A_1.b.C"):
        for ch in "\n\t\r\0 .-1_é٣/\\$@\u2028Z":
            al |= {a[:i] + ch + a[i:] for i in range(len(a) + 1)} | {a[:i] + ch + a[i + 1:] for i in range(len(a))}
    for a in sorted(al):
        out += [{"type": "bool", "alias": a}, {"type": "struct", "fields": [{"type": "int", "bits": 8, "alias": a}]}]
    return out


def declarations():
    """The same alias declared at two places, wherever they are; and at one place only."""
    decl = {"type": "bool", "alias": "a.B"}
    holes = [lambda x: {"type": "struct", "fields": ["int32", x]}, lambda x: {"type": "list", "values": x}, lambda x: {"type": "map", "keys": x, "values": "bool"},
             lambda x: {"type": "map", "keys": "string", "values": x}, lambda x: {"type": "union", "types": ["null", x]}, lambda x: {"type": [x, "null"]},
             lambda x: [x, "int64"], lambda x: x, lambda x: {"type": "union", "types": [x], "optional": True}]
    for f in holes:
        yield f(decl)
        yield f({"type": "a.B"})
        for g in holes:
            for other in (decl, {"type": "int", "bits": 8, "alias": "a.B"}, {"type": "a.B"}, {"type": "bool", "alias": "a.C"}, {"type": "bool", "alias": "a.b"}):
                yield {"type": "struct", "fields": [f(decl), g(other)]}
                yield {"type": "map", "keys": f(decl), "values": g(other)}
            yield f(g(decl))
            yield f({"type": "struct", "alias": "a.B", "fields": [g(decl)]})
            yield f({"type": "list", "alias": "a.B", "values": g({"type": "a.B"})})


def observe(d):
    from recap.types import from_dict

    p = copy.deepcopy(d)
    st, v = call(from_dict, p)
    return {"op": "parse", "d": enc.j(d), "st": st, "t": enc.t(v) if st == "ok" else enc.T("null"), "after": enc.j(p)}


def run(ctx):
    ds = []
    if ctx.replay:
        ds = [enc.unj(ctx.replay["record"]["d"])]
    else:
        r = ctx.explore("MC_Descs", "SPECIFICATION Spec\nCONSTANT MaxSteps = %d\nINVARIANTS AcceptedIsValid ShorthandsAgree "
                        "PartsDecide WrittenIsAccepted Emit\nCHECK_DEADLOCK FALSE\n" % (1 if ctx.quick else 2), workers=6, heap="6g")
        seen = set()
        for x in r.lines:
            d = enc.unj(norm(x["d"]))
            h = json.dumps(d, sort_keys=True)
            if h not in seen and in_domain(d):
                seen.add(h)
                ds.append(d)
        ctx.extra["descriptions_enumerated_by_tlc"] = len(ds)
        ds += [d for d in [*corpus(), *declarations()] if in_domain(d)]
        rng = ctx.rng
        for _ in range(2500 if ctx.quick else 60000):
            g = gen.Gen(rng)
            d = desc(g.type(rng.choice([1, 2, 3, 4]), top=rng.random() < 0.6), rng)
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                d = mutate(d, rng)
            if in_domain(d):
                ds.append(d)
    recs = [observe(d) for d in ds]
    ctx.extra["accepted"] = sum(r["st"] == "ok" for r in recs)
    ctx.extra["rejected"] = sum(r["st"] == "err" for r in recs)
    for x in recs[-2:]:
        ctx.sample({"description": x["d"], "outcome": x["st"]})
    ctx.judge("Trace_Types", recs)

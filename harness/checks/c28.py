"""C28: types compare equal exactly when their content is equal."""
import copy
import json

import enc
import gen
from vlib import call

KIN = [("string", "bytes"), ("null", "bool"), ("struct", "union")]


def boolean(f):
    st, v = call(f)
    return st if st != "ok" else "true" if v is True else "false" if v is False else repr(v)


def some(x, name):
    """An attribute's other value."""
    v = enc.unj(x)
    if isinstance(v, bool):
        return enc.j(not v)
    if isinstance(v, int):
        return enc.j(v + 1)
    if isinstance(v, str):
        return enc.j(v + "x" if len(v) % 2 else v[:-1] + "y")
    if isinstance(v, list):
        return enc.j(v[::-1] if len(v) > 1 and v != v[::-1] else v + ["Z"])
    if isinstance(v, dict):
        return enc.j({**v, "zz": None})
    return enc.j(7)


def change(r, t):
    """One change somewhere (that perhaps makes no difference: the specification decides)."""
    t = copy.deepcopy(t)
    nodes = [n for _, n in gen.walk(t)]
    n = r.choice(nodes if r.random() < .5 else nodes[-6:])
    a = n["a"] = dict(n["a"] or {})
    ways = ["set", "set", "add", "drop", "kind", "swap", "less", "more"]
    for w in r.sample(ways, len(ways)):
        if w == "set" and a:
            k = r.choice(sorted(a))
            a[k] = some(a[k], k)
            return t
        if w == "add":
            k = r.choice(["doc", "logical", "default", "name", "zz"] + (["alias"] if n["k"] != "proxy" else []))
            if k not in a:
                a[k] = enc.j(r.choice(["x", ""]) if k in ("doc", "logical", "alias") else r.choice([None, "x", [], "0"]))
                return t
        if w == "drop":
            ks = sorted(set(a) - {"bits", "signed", "variable", "symbols", "bytes", "length"} - ({"alias"} if n["k"] == "proxy" else set()))
            if ks:
                del a[r.choice(ks)]
                return t
        if w == "kind":
            for p in KIN:
                if n["k"] in p:
                    n["k"] = p[1 - p.index(n["k"])]
                    return t
        c = n["c"]
        if w == "swap" and len(c) > 1:
            i, j = r.sample(range(len(c)), 2)
            c[i], c[j] = c[j], c[i]
            return t
        if w == "less" and c and n["k"] in ("struct", "union"):
            del c[r.randrange(len(c))]
            return t
        if w == "more" and n["k"] in ("struct", "union"):
            c.insert(r.randint(0, len(c)), copy.deepcopy(r.choice(c)) if c and r.random() < .7 else enc.T("null"))
            return t
    return t


def shuffled(r, t):
    """The same with the attributes given in another order."""
    def sh(x):
        if x["t"] == "obj":
            ks = list(x["ks"])
            r.shuffle(ks)
            return {"t": "obj", "ks": ks, "m": {k: sh((x["m"] or {})[k]) for k in ks}}
        return {**x, "c": [sh(y) for y in x["c"]]} if x["t"] == "arr" else x
    ks = list(t["a"] or {})
    r.shuffle(ks)
    return {"k": t["k"], "a": {k: sh(t["a"][k]) for k in ks}, "c": [shuffled(r, c) for c in t["c"]]}


def build(t, declare):
    from recap.types import RecapTypeRegistry
    reg = RecapTypeRegistry()
    if declare:     # the aliases that can be; references compare by name
        for _, n in gen.walk(t):
            if n["k"] != "proxy" and "alias" in (n["a"] or {}):
                call(reg.register_alias, enc.build(n, reg))
    return enc.build(t, reg)


def observe(x0, y0, touch):
    from recap.types import ProxyType, to_dict
    x, y = build(x0, touch), build(y0, False)
    ex, ey = enc.t(x), enc.t(y)
    if touch:       # what was done with a type before doesn't matter
        call(to_dict, x)
        call(x.is_nullable)
        call(repr, y)
        for p in _proxies(x):
            call(p.resolve)
    rec = {"op": "equal", "gx": x0, "gy": y0, "touch": touch, "x": ex, "y": ey}
    rec["eq"] = boolean(lambda: x == y)
    rec["qe"] = boolean(lambda: y == x)
    rec["ne"] = boolean(lambda: x != y)
    rec["found"] = boolean(lambda: y in [x])
    rec["copies"] = [boolean(lambda: copy.deepcopy(x) == x), boolean(lambda: y == copy.copy(y)), boolean(lambda: x == x)]
    rec["others"] = [boolean(lambda o=o: x == o) for o in (None, x.type_, vars(x), object(), [x], {}, call(to_dict, y)[1])]
    rec["x2"], rec["y2"] = enc.t(x), enc.t(y)
    return rec


def _proxies(x):
    from recap.types import ProxyType
    if isinstance(x, ProxyType):
        yield x
    for n in ("values", "keys"):
        if hasattr(x, n):
            yield from _proxies(getattr(x, n))
    for n in ("fields", "types"):
        for c in getattr(x, n, None) or []:
            yield from _proxies(c)


def pairs(ctx):
    r = ctx.rng
    res = ctx.explore("MC_Equal", f"SPECIFICATION Spec\nCONSTANTS\n MaxSteps = {1 if ctx.quick else 2}\n Rich = TRUE\nINVARIANTS EqualByContent EmitChanges\nCHECK_DEADLOCK FALSE\n", workers=6)
    out = []
    for ln in sorted(res.lines, key=json.dumps):
        out.append((ln["t"], ln["t"]))
        cs = ln["c"]
        out += [(ln["t"], c) for c in (cs if len(cs) <= 12 or not ctx.quick and r.random() < .1 else r.sample(cs, 12))]
        if cs and r.random() < .3:
            out.append(tuple(r.choices(cs, k=2)))
    ctx.extra["changed_types_enumerated_by_tlc"] = sum(len(ln["c"]) for ln in res.lines)
    if len(out) > 60000:
        out = r.sample(out, 60000)
    for _ in range(2500 if ctx.quick else 40000):
        g = gen.Gen(r)
        t = g.type(r.choice([1, 2, 3]), top=r.random() < .7)
        y = shuffled(r, t)
        for _ in range(r.choice([0, 0, 1, 1, 1, 1, 2])):
            y = change(r, y)
        out.append((t, y) if r.random() < .5 else (y, t))
    for _ in range(300 if ctx.quick else 3000):
        out.append((gen.Gen(r).type(1), gen.Gen(r).type(1)))
    return out


def run(ctx):
    if ctx.replay:
        e = ctx.replay["record"]
        ctx.judge("Trace_Equal", [observe(e["gx"], e["gy"], e["touch"])])
        return
    recs = [observe(x, y, ctx.rng.random() < .3) for x, y in pairs(ctx)]
    for e in recs[-2:]:
        ctx.sample({"x": e["x"], "y": e["y"], "eq": e["eq"]})
    ctx.judge("Trace_Equal", recs, per_chunk=800)

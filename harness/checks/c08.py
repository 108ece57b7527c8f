"""C08: alias resolution, and independence of what it returns."""
import enc
import gen
from checks.c06 import norm
from vlib import call

CFG = "SPECIFICATION TraceSpec\n"


class World:
    """Executes one history on the real code and records the full state after each step."""

    def __init__(self):
        self.roots, self.handles, self.res, self.events = [], [], [], []

    def state(self, ev, full):
        ev["descs"] = [enc.t(x) for x in self.roots]
        ev["res"] = [[enc.t(r)] if r is not None else [] for r in self.res]
        ev["builtin"] = {}
        if full:
            from recap.types import from_dict
            for n in gen.BUILTINS:
                st, v = call(lambda: from_dict(n).resolve())
                ev["builtin"][n] = enc.t(v) if st == "ok" else {"k": "?" + st, "a": {}, "c": []}
        self.events.append(ev)

    def run(self, op, full=False):
        ev = {k: v for k, v in op.items()}
        if op["op"] == "load":
            from recap.types import from_dict
            st, v = call(from_dict, enc.longdict(op["t"]))
            if st == "ok":
                self.roots.append(v)
                self.add(v)
            ev["st"] = st
        elif op["op"] == "resolve":
            h = op["h"] - 1
            st, v = call(self.handles[h].resolve)
            ev["st"] = st
            ev["r"] = enc.t(v) if st == "ok" else enc.T("null")
            if st == "ok" and self.res[h] is None:
                self.res[h] = v
                self.add(v)
        else:
            x = enc.node(self.res[op["h"] - 1], op["path"])
            ev["st"] = "ok"
            if op["op"] == "drop":
                enc.kids(x).pop()
            else:
                key, val = op["key"], enc.unj(op["val"])
                key = "bytes_" if key == "bytes" and x.type_ in ("string", "bytes") else key
                own = key in enc.OWN.get(x.type_, ()) + ("doc", "logical")
                if op["op"] == "extend":
                    (getattr(x, key) if own else x.extra_attrs[key]).append(val)
                elif own:
                    setattr(x, key, val)
                else:
                    x.extra_attrs[key] = val
        self.state(ev, full)
        return ev["st"]

    def add(self, v):
        rs = enc.refs(v)
        self.handles += rs
        self.res += [None] * len(rs)


def execute(hist):
    w = World()
    mutated = set()
    for i, op in enumerate(hist):
        if op["op"] == "resolve" and op["h"] in mutated:
            return None        # whether a reference resolves afresh after its result was changed is open
        if op["op"] not in ("load", "resolve"):
            mutated.add(op["h"])
        if op["op"] != "load" and (op["h"] > len(w.handles) or (op["op"] != "resolve" and w.res[op["h"] - 1] is None)):
            break              # an earlier step already failed; the trace ends there
        w.run(op, full=i == len(hist) - 1)
    return {"events": w.events}


def random_history(rng):
    """Random descriptions full of references, random resolutions and modifications."""
    w = World()
    mutated = set()
    n = rng.randint(4, 14)
    for i in range(n):
        free = [h for h in range(len(w.handles)) if w.res[h] is None]
        done = [h for h in range(len(w.handles)) if w.res[h] is not None and h not in mutated]
        roll = rng.random()
        last = i == n - 1
        if len(w.roots) < 1 or (len(w.roots) < 3 and roll < 0.15):
            if w.run({"op": "load", "t": description(rng)}, last) != "ok":
                break
        elif free and roll < 0.65:
            w.run({"op": "resolve", "h": rng.choice(free) + 1}, last)
        elif done and roll < 0.72:
            w.run({"op": "resolve", "h": rng.choice(done) + 1}, last)
        elif any(r is not None for r in w.res):
            h = rng.choice([h for h in range(len(w.handles)) if w.res[h] is not None])
            op = mutation(w.res[h], rng)
            if op:
                mutated.add(h + 1 - 1)
                w.run({**op, "h": h + 1}, last)
        if len(w.handles) > 40:
            break
    return {"events": w.events}


def mutation(x, rng):
    spots = []

    def walk(y, path):
        if y.type_ == "proxy" or len(path) > 6:
            return
        spots.append((y, path))
        for i, c in enumerate(enc.kids(y)):
            walk(c, path + [i + 1])

    walk(x, [])
    if not spots:
        return None
    y, path = rng.choice(spots)
    ops = ["set", "set"]
    lists = [k for k, v in y.extra_attrs.items() if isinstance(v, list)]
    if lists or y.type_ == "enum":
        ops += ["extend"] * 3
    if y.type_ in ("struct", "union") and enc.kids(y):
        ops += ["drop"] * 2
    op = rng.choice(ops)
    if op == "drop":
        return {"op": "drop", "path": path}
    if op == "extend":
        return {"op": "extend", "path": path, "key": "symbols" if y.type_ == "enum" and not (lists and rng.random() < .5) else rng.choice(lists),
                "val": enc.j("more")}
    own = {"int": [("bits", 3), ("signed", False)], "float": [("bits", 9)], "string": [("bytes", 3), ("variable", False)],
           "bytes": [("bytes", 3)], "list": [("length", 2)]}.get(y.type_, [])
    key, val = rng.choice(own + [("doc", "changed"), ("logical", "chg.L"), ("default", 9), ("name", "nn"), ("unit", "week"), ("zz", [1])])
    return {"op": "set", "path": path, "key": key, "val": enc.j(val)}


def description(rng):
    g = gen.Gen(rng, ns=rng.choice(["v", "w"]))
    t = enc.T("struct", {})
    t["c"] = [g.type(rng.choice([1, 2, 3]), True) for _ in range(rng.randint(1, 4))]
    # references to everything declared, before and after the declaration, with overrides
    names = list(g.declared)
    extra = []
    for n in names + [rng.choice(gen.BUILTINS) for _ in range(2)] + (["v.Missing"] if rng.random() < 0.2 else []):
        a = {"alias": n, "name": "r%d" % len(extra)}
        if rng.random() < 0.5:
            a.update(rng.choice([{"doc": "ref doc"}, {"default": 5}, {"logical": "o.L"}, {"unit": "x"}, {"tags": [1]}, {"default": None}]))
        extra.append(enc.T("proxy", a))
    for x in extra:
        t["c"].insert(rng.randint(0, len(t["c"])), x)
    if rng.random() < 0.4:
        t["a"]["alias"] = enc.j("v.Root")
        t["c"].append(enc.T("union", {"default": None, "name": "rec"}, enc.T("null"), enc.T("proxy", {"alias": "v.Root"})))
    return t


def run(ctx):
    recs = []
    if ctx.replay:
        h = [{k: v for k, v in e.items() if k in ("op", "t", "h", "path", "key", "val")} for e in ctx.replay["record"]["events"]]
        recs.append(execute(h))
    else:
        r = ctx.explore("MC_Aliases", "SPECIFICATION Spec\nCONSTANT MaxOps = %d\nINVARIANTS ResolvedOK Emit\n"
                        "PROPERTIES DescriptionsFixed OthersUntouched\nCHECK_DEADLOCK FALSE\n" % (4 if ctx.quick else 5),
                        workers=6, heap="6g")
        for x in r.lines:
            for op in x["hist"]:
                if "t" in op:
                    norm(op["t"])
                if "path" in op and not op["path"]:
                    op["path"] = []
            e = execute(x["hist"])
            if e:
                recs.append(e)
        ctx.extra["histories_from_tlc"] = len(recs)
        for n in gen.BUILTINS:
            recs.append(execute([{"op": "load", "t": enc.T("struct", {}, enc.T("proxy", {"alias": n, "name": "a"}),
                                                           enc.T("proxy", {"alias": n, "name": "b", "doc": "d", "default": None, "zz": [1]}))},
                                 {"op": "resolve", "h": 1}, {"op": "set", "h": 1, "path": [], "key": "unit", "val": enc.j("eon")},
                                 {"op": "set", "h": 1, "path": [], "key": "logical", "val": enc.j("c.L")}, {"op": "resolve", "h": 2}]))
        for _ in range(900 if ctx.quick else 20000):
            recs.append(random_history(ctx.rng))
    ctx.extra["steps"] = sum(len(r["events"]) for r in recs)
    ctx.sample([e["op"] for e in recs[-1]["events"]])
    ctx.judge("Trace_Aliases", recs, cfg=CFG, per_chunk=150)

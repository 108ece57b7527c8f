"""C15: writing Protobuf files."""
import copy
import re

import convgen
import enc
import gen
import produced
import proto
from checks import c06
from enc import attrs, j
from vlib import call


def observe(t):
    from proto_schema_parser.generator import Generator
    from proto_schema_parser.parser import Parser
    from recap.converters.protobuf import ProtobufConverter

    x = enc.build(t, repeats=True)
    st, f = call(ProtobufConverter().from_recap, x)
    rec = {"op": "write", "t": t, "st": st, "f": proto.encode(f) if st == "ok" else proto.EMPTY, "after": enc.t(x),
           "printed": {"st": "none", "f": proto.EMPTY}, "back": {"st": "none", "names": []}}
    if st == "ok":
        st2, text = call(Generator().generate, f)
        if st2 == "ok":
            st3, g = call(Parser().parse, text)
            rec["printed"] = {"st": st3, "f": proto.encode(g) if st3 == "ok" else proto.EMPTY}
            st4, b = call(ProtobufConverter().to_recap, text)
            rec["back"] = {"st": st4, "names": [str(z.extra_attrs.get("name")) for z in b.fields] if st4 == "ok" else []}
        else:
            rec["printed"]["st"] = st2
    return rec


IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")
WORDS = {"inf", "map", "group", "oneof"}


def in_domain(t):
    """Structs whose names Protobuf can spell and whose references have one meaning."""
    if t["k"] != "struct" or convgen.dangling(t):
        return False
    decl = {attrs(n)["alias"]["v"]: n for _, n in gen.walk(t) if n["k"] != "proxy" and "alias" in attrs(n)}
    for p, n in gen.walk(t):
        a = attrs(n)
        parent = convgen_parent(t, p)
        if "alias" in a and n["k"] in ("struct", "enum"):
            if not all(IDENT.match(s) for s in a["alias"]["v"].split(".")):
                return False
        if parent is not None:
            nm = a.get("name", {}).get("v")
            if parent["k"] == "struct":
                if not nm or not IDENT.match(nm) or nm in WORDS or nm.startswith("field_"):
                    return False
            elif nm is not None and (parent["k"] != "union" or not IDENT.match(nm) or nm.startswith("field_")):
                return False
            if nm and parent["k"] == "union" and sum(c["k"] != "null" for c in parent["c"]) == 1:
                return False
        if n["k"] == "struct":
            names = [attrs(f)["name"]["v"] for f in n["c"] if "name" in attrs(f)]
            names += [attrs(m)["name"]["v"] for f in n["c"] if f["k"] == "union" for m in f["c"] if "name" in attrs(m)]
            if len(set(names)) != len(names):
                return False
        if n["k"] == "union" and all(c["k"] == "null" for c in n["c"]):
            return False
        if n["k"] == "enum" and (not a["symbols"]["c"] or not all(IDENT.match(s["v"]) for s in a["symbols"]["c"])):
            return False
        if n["k"] == "proxy" and a["alias"]["v"] in decl:
            d = decl[a["alias"]["v"]]
            if set(a) - {"alias", "name", "doc", "default"} and any(y["k"] in ("struct", "enum") for _, y in gen.walk(d)):
                return False
            # an alias of something Protobuf has to write out must not contain itself, other than within a message
            if d["k"] not in ("struct", "enum") and endless(d, decl):
                return False
            # a name on the alternatives of an inlined union is not the field's own
            if d["k"] == "union" and any("name" in attrs(m) for m in d["c"]):
                return False
            if d["k"] not in ("struct", "enum") and parent is not None and parent["k"] == "union" and "name" in attrs(d):
                return False
    return True


def endless(t, decl, path=()):
    if t["k"] == "proxy":
        a = t["a"]["alias"]["v"]
        return a in path or a in decl and decl[a]["k"] not in ("struct", "enum") and endless(decl[a], decl, path + (a,))
    return t["k"] != "struct" and any(endless(c, decl, path) for c in t["c"])


def convgen_parent(t, p):
    if not p:
        return None
    for i in p[:-1]:
        t = t["c"][i]
    return t


class ProtoTypes(convgen.ConvGen):
    """Mostly types that Protobuf can hold, so that most files get written."""

    def scalar(self):
        r = self.r
        if r.random() < 0.06:
            return super().scalar()
        k = r.choice(["null", "bool", "int", "int", "float", "string", "bytes", "enum"])
        if k == "int":
            return enc.T("int", {"bits": r.choice([1, 8, 31, 32, 33, 63, 64]), "signed": r.random() < 0.5})
        if k == "float":
            return enc.T("float", {"bits": r.choice([16, 32, 33, 64])})
        if k in ("string", "bytes"):
            return enc.T(k, {} if r.random() < 0.5 else {"bytes": r.choice([1, 16, 65536, 2**31 - 1, 2**31]), "variable": r.random() < 0.7})
        if k == "enum":
            return self.named(enc.T("enum", {"symbols": r.sample(["A", "B", "RED", "UNKNOWN", "x1", "Z_9"], r.randint(1, 4))}))
        return enc.T(k)

    def named(self, t):
        r = self.r
        self.n += 1
        outer = [a for a in self.outer if r.random() < 0.3]
        pkg = outer[-1] if outer else "v.w"
        if r.random() < 0.02:
            pkg = r.choice(["v", "z", "v.w.NoMessage"])
        t["a"]["alias"] = j(f"{pkg}.T{self.n}")
        self.declared.append(t["a"]["alias"]["v"])
        return t

    outer: list = []

    def struct(self, depth, maxf=4):
        t = self.named(enc.T("struct", {}))
        self.outer = self.outer + [t["a"]["alias"]["v"]]
        fs = [self.type(depth - 1, True) for _ in range(self.r.randint(0, maxf) if self.r.random() < 0.98 else self.r.choice([9, 21, 40]))]
        self.outer = self.outer[:-1]
        for i, f in enumerate(fs):
            f["a"]["name"] = j(self.r.choice(["id", "name", "value", "Next", "_x"]) + str(i))
        t["c"] = fs
        return t

    def union(self, depth):
        r = self.r
        if r.random() < 0.5:
            x = self.type(depth - 1)
            return enc.T("union", {"default": None} if r.random() < 0.7 else {}, *r.sample([enc.T("null"), x if x["k"] != "null" else enc.T("bool")], 2))
        alts = []
        for _ in range(r.randint(1, 3) if r.random() < 0.95 else 11):
            m = self.type(0 if r.random() < 0.85 else 1)
            if m["k"] != "null":
                self.n += 1
                if r.random() < 0.5:
                    m["a"]["name"] = j(f"m{self.n}")
                alts.append(m)
        alts = alts or [enc.T("bool")]
        if sum(1 for _ in alts) == 1:
            alts[0]["a"].pop("name", None)
        if r.random() < 0.6:
            alts.insert(r.randint(0, len(alts)), enc.T("null"))
        return enc.T("union", {}, *alts)

    def type(self, depth=3, in_struct=False, top=False):
        r = self.r
        roll = r.random()
        if depth > 0 and 0.5 < roll < 0.6:
            return self.decorate(enc.T("list", {}, self.type(r.choice([0, 0, depth - 1]))), in_struct)
        if depth > 0 and 0.6 < roll < 0.68:
            k = r.choice([enc.T("string"), enc.T("string"), enc.T("bool"), enc.T("int", {"bits": 32}), enc.T("int", {"bits": 64, "signed": False})])
            if r.random() < 0.2:
                k = r.choice([enc.T("union", {}, enc.T("null"), k), enc.T("list", {}, k), self.proxy(), self.scalar(), enc.T("bytes"), enc.T("float", {"bits": 32})])
            return self.decorate(enc.T("map", {}, k, self.type(r.choice([0, 0, depth - 1]))), in_struct)
        return super().type(depth, in_struct, top)

    def decorate(self, t, in_struct=False):
        had = attrs(t).get("alias")
        t = super().decorate(t, in_struct)
        if t["k"] in ("struct", "enum") and had:
            t["a"]["alias"] = had
        return t

    def root(self, depth=3):
        t = self.struct(depth, 5)
        if self.r.random() < 0.3:                 # references that precede what they refer to
            for _, n in gen.walk(t):
                if n["k"] == "struct":
                    self.r.shuffle(n["c"])
        if self.r.random() < 0.1:                 # the same declaration in several places
            ds = [x for p, x in gen.walk(t) if p and x["k"] in ("struct", "enum") and "alias" in attrs(x)]
            for x in ds[:1] * (len(ds) > 2) + ds[-1:]:
                x = copy.deepcopy(x)
                x["a"]["name"] = j(f"again{self.n}")
                t["c"].append(x)
                self.n += 1
        return convgen.close(t)


def from_files(ctx):
    """Types as the specification reads them from its enumerated files."""
    from recap.converters.protobuf import ProtobufConverter
    from checks import c14

    out = []
    for f, text in c14.files(ctx)[:400 if ctx.quick else 8000]:
        st, t = call(ProtobufConverter().to_recap, text)
        if st == "ok":
            out.append(enc.t(t))
    return out


def variants(rng, t):
    """A type from the exhaustive construction, as a struct in a package with identifiers as names."""
    t = copy.deepcopy(t)
    n = 0
    for p, x in gen.walk(t):
        n += 1
        if x["k"] in ("struct", "enum") and "alias" not in x["a"] and rng.random() < 0.97:
            x["a"]["alias"] = j(f"v.S{n}")
    for p, x in gen.walk(t):
        for i, f in enumerate(x["c"]):
            if x["k"] == "struct" and not IDENT.match(str(attrs(f).get("name", {}).get("v", ""))):
                f["a"]["name"] = j(f"f{i}")
            elif x["k"] != "struct" and x["k"] != "union":
                f["a"].pop("name", None)
    if t["k"] != "struct":
        a = t["a"]
        a["name"] = j("only")
        t = enc.T("struct", {"alias": "v.Root"}, t)
    return t


def run(ctx):
    if ctx.replay:
        ts = [ctx.replay["record"]["t"]]
    else:
        ts = [variants(ctx.rng, t) for t in c06.types(ctx, 0, 0)]
        ts += from_files(ctx)
        ps = produced.types(ctx.rng, 800 if ctx.quick else 15000)
        ts += ps + [variants(ctx.rng, t) for t in ps]
        ts += [ProtoTypes(ctx.rng).root(ctx.rng.choice([1, 2, 3, 4])) for _ in range(1200 if ctx.quick else 30000)]
        ts = [t for t in ts if in_domain(t)]
    recs = [observe(t) for t in ts]
    ctx.extra["written"] = sum(r["st"] == "ok" for r in recs)
    ctx.extra["rejected"] = sum(r["st"] == "err" for r in recs)
    for r in recs[-2:]:
        ctx.sample({"type": r["t"], "outcome": r["st"]})
    ctx.judge("Trace_Protobuf", recs)

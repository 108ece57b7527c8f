"""Random inputs for the converter checks: Recap types to write, Avro schemas to read."""
from __future__ import annotations

import gen
from enc import T, attrs, j, unj

UNITS = ["day", "second", "millisecond", "microsecond", "nanosecond", "year", "month", "week", "hour", "minute", "DAY", "picosecond", "ms", ""]


class ConvGen(gen.Gen):
    """Types as they occur in practice: sensible sizes, logical types, named fields; references never dangle."""

    def __init__(self, rng, **kw):
        kw.setdefault("ident", True)
        kw.setdefault("logical", False)
        super().__init__(rng, **kw)
        self.kinds: dict[str, dict] = {}

    def scalar(self):
        r = self.r
        if r.random() < 0.3:
            return self.log()
        k = r.choice(["null", "bool", "int", "int", "int", "float", "float", "string", "string", "bytes", "bytes", "enum"])
        if k == "int":
            return T("int", {"bits": r.choice([1, 7, 8, 16, 31, 32, 32, 33, 63, 64, 64, 65, 128, 129, 256, 1000]), "signed": r.random() < 0.6})
        if k == "float":
            return T("float", {"bits": r.choice([1, 16, 31, 32, 33, 63, 64, 65, 80, 128])})
        if k in ("string", "bytes"):
            m = r.random()
            if m < 0.3:
                return T(k)
            return T(k, {"bytes": r.choice([1, 12, 16, 255, 65536, 2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**63 - 1]), "variable": m < 0.7})
        if k == "enum":
            return T("enum", {"symbols": r.sample(["A", "B", "RED", "UNKNOWN", "x1", "Z_9"], r.randint(1, 4))})
        return T(k)

    def log(self):
        r = self.r
        w = r.choice(["Decimal", "Decimal", "Date", "Time", "Time", "Timestamp", "Timestamp", "Interval", "UUID", "Duration", "other"])
        if w == "Decimal":
            a = {"bytes": r.choice([8, 16, 32, 2**63 - 1]), "variable": r.random() < 0.5, "logical": "build.recap.Decimal"}
            if r.random() < 0.85:
                a["precision"] = r.choice([1, 9, 28, 38, 1000])
            if r.random() < 0.7:
                a["scale"] = r.choice([0, 2, 14])
            return T("bytes", a)
        if w == "UUID":
            return T("string", {"bytes": r.choice([36, 36, 16]), "variable": r.random() < 0.3, "logical": "build.recap.UUID"})
        if w == "Interval":
            return T("bytes", {"bytes": r.choice([12, 12, 12, 16]), "variable": r.random() < 0.3, "unit": r.choice(["millisecond", "millisecond", "second"]),
                               "logical": "build.recap.Interval"})
        if w == "other":
            return T(r.choice(["int", "float"]), {"bits": 32, "logical": r.choice(["my.Logical", "build.recap.Nope"])})
        a = {"bits": r.choice([16, 31, 32, 32, 33, 64, 64, 65]), "signed": r.random() < 0.9, "logical": "build.recap." + w}
        if r.random() < 0.9:
            a["unit"] = r.choice(UNITS + (["day"] * 6 if w == "Date" else ["millisecond", "microsecond"] * 3))
        if w == "Timestamp" and r.random() < 0.4:
            a["timezone"] = "UTC"
        return T("int", a)

    def proxy(self, must=None):
        t = super().proxy(must)
        r = self.r
        k = self.kinds.get(t["a"]["alias"]["v"])
        if k and r.random() < 0.3:
            if k["k"] in ("int", "float"):
                t["a"]["bits"] = j(r.choice([8, 16, 32, 64]))
            elif k["k"] in ("string", "bytes"):
                t["a"]["bytes"] = j(r.choice([4, 100]))
        return t

    def decorate(self, t, in_struct=False):
        t = super().decorate(t, in_struct)
        a = t["a"]
        if not in_struct:
            a.pop("name", None)
        if "precision" in a and a["precision"]["t"] == "bool":
            del a["precision"]
        if in_struct and t["k"] == "enum" and self.r.random() < .4:
            a["default"] = j(self.r.choice(unj(attrs(t)["symbols"])))
        if t["k"] != "proxy" and "alias" in a:
            self.kinds[a["alias"]["v"]] = t
        return t

    def struct(self, depth, maxf=4):
        t = super().struct(depth, maxf)
        seen = set()
        t["c"] = [f for f in t["c"] if not (f["a"]["name"]["v"] in seen or seen.add(f["a"]["name"]["v"]))]
        return t

    def root(self, depth=3):
        t = self.struct(depth, 5)
        if self.r.random() < 0.4:
            t["a"]["name"] = j(self.r.choice(["Root", "root", "R1"]))
        if self.r.random() < 0.3:
            t["a"]["doc"] = j("root doc")
        if self.aliases and self.r.random() < 0.4:
            t["a"]["alias"] = j(self.fresh_alias())
        if self.r.random() < 0.3:                 # references that precede what they refer to
            for _, n in gen.walk(t):
                if n["k"] == "struct":
                    self.r.shuffle(n["c"])
        return close(t)


def logicals():
    """Every logical type with every size, sign and unit, in a struct."""
    fields = []
    for w in ("Date", "Time", "Timestamp", "Duration", "Interval", "Foo"):
        for unit in [None] + UNITS:
            for bits in (16, 32, 33, 64, 65):
                for signed in (True, False):
                    fields.append(T("int", {"bits": bits, "signed": signed, "logical": "build.recap." + w} | ({} if unit is None else {"unit": unit})))
    for unit in [None] + UNITS:
        for n in (11, 12, 16):
            for v in (True, False):
                for w in ("Interval", "Timestamp", "UUID"):
                    fields.append(T("bytes", {"bytes": n, "variable": v, "logical": "build.recap." + w} | ({} if unit is None else {"unit": unit})))
    for n in (None, 16, 36, 40, 2**63 - 1):
        for v in (True, False):
            if n or v:
                fields.append(T("string", {"variable": v, "logical": "build.recap.UUID"} | ({"bytes": n} if n else {})))
    for n in (None, 8, 16, 2**63 - 1):
        for v in (True, False):
            for p in (None, 0, 1, 38):
                for sc in (None, 0, 1, 38, -2):
                    if n or v:
                        fields.append(T("bytes", {"variable": v, "logical": "build.recap.Decimal"} | ({"bytes": n} if n else {})
                                        | ({} if p is None else {"precision": p}) | ({} if sc is None else {"scale": sc})))
    for w in ("Decimal", "Interval", "Foo"):
        fields.append(T("string", {"bytes": 36, "variable": True, "logical": "build.recap." + w, "precision": 3, "unit": "millisecond"}))
    for n in (2**63 - 1, 2**63 - 2):
        for k in ("bytes", "string"):
            fields += [T(k, {"bytes": n, "variable": True})]
    for f in fields:
        f["a"]["name"] = j("f")
        yield T("struct", {}, f)


def key_aliases(r, n):
    """Aliases declared by the keys of maps, at any place, and references to them."""
    for _ in range(n):
        key = T("string", {"variable": True, "alias": "p.Key"} | ({"bytes": 36} if r.random() < .5 else {}))
        t = T("map", {}, key, T("int", {"bits": 32, "signed": True}))
        for _ in range(r.randint(0, 3)):
            w = r.choice(["list", "union", "map", "struct"])
            if w == "list":
                t = T("list", {"variable": True}, t)
            elif w == "union":
                t = T("union", {}, T("null"), t)
            elif w == "map":
                t = T("map", {}, T("string", {"variable": True}), t)
            else:
                t["a"]["name"] = j("g")
                t = T("struct", {"alias": f"p.S{r.randint(0, 9**6)}"}, t)
        ref = T("proxy", {"alias": "p.Key"})
        if r.random() < .4:
            ref = T("map", {}, T("string", {"variable": True}), ref) if r.random() < .5 else T("list", {"variable": True}, ref)
        t["a"]["name"], ref["a"]["name"] = j("m"), j("s")
        yield T("struct", {"alias": "p.M"}, t, ref)


def close(t):
    """Replace references to aliases that got lost by the builtin int32."""
    import gen as g
    decl = {n["a"]["alias"]["v"] for _, n in g.walk(t) if n["k"] != "proxy" and "alias" in attrs(n)}
    for _, n in g.walk(t):
        if n["k"] == "proxy" and n["a"]["alias"]["v"] not in decl and n["a"]["alias"]["v"] not in gen.BUILTINS:
            n["a"] = {k: v for k, v in n["a"].items() if k in ("name", "doc", "default")}
            n["a"]["alias"] = j("int32")
    return t


def dangling(t):
    decl = {n["a"]["alias"]["v"] for _, n in gen.walk(t) if n["k"] != "proxy" and "alias" in attrs(n)}
    return any(n["k"] == "proxy" and n["a"]["alias"]["v"] not in decl and n["a"]["alias"]["v"] not in gen.BUILTINS for _, n in gen.walk(t))


PRIMS = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"]
NSS = ["a", "com.example", "x.y", "z", "com.example.deep.er", "Com.Example", "_u.v1"]


class AvroGen:
    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.defined: list[str] = []   # full names

    def name(self, ns):
        """A new named type: (schema part, namespace inside)."""
        r = self.r
        self.n += 1
        base = f"T{self.n}"
        roll = r.random()
        if roll < 0.55:
            part = {"name": base}
        elif roll < 0.75:
            ns = r.choice(NSS)
            part = {"name": f"{ns}.{base}"}
        elif roll < 0.9:
            ns = r.choice(NSS)
            part = {"name": base, "namespace": ns}
        elif roll < 0.95:
            ns0 = r.choice(NSS)
            part = {"name": f"{ns0}.{base}", "namespace": r.choice(NSS)}
            ns = ns0
        else:
            ns = ""
            part = {"name": base, "namespace": ""}
        ns = ns or "_root"
        if r.random() < 0.3:
            part["doc"] = r.choice(["type doc", "é", "", " two\nlines "])
        if r.random() < 0.15:
            part["aliases"] = r.sample(["Old", f"old.N{self.n}", f"o.p.N{self.n}"], r.randint(1, 2))
        return part, ns, f"{ns}.{base}"

    def ref(self, ns):
        f = self.r.choice(self.defined)
        n, b = f.rsplit(".", 1)
        if n == ns and self.r.random() < 0.7 or n == "_root":
            return b if n == ns else None
        return f

    def type(self, depth, ns, in_union=False):
        r = self.r
        roll = r.random()
        if depth <= 0 or roll < 0.25:
            p = r.choice(PRIMS)
            return p if r.random() < 0.8 else {"type": p}
        if roll < 0.38 and self.defined:
            x = self.ref(ns)
            if x:
                return x if r.random() < 0.85 else {"type": x}
        if roll < 0.5:
            return self.logical(ns)
        if roll < 0.58:
            x = {"type": "array", "items": self.type(depth - 1, ns)}
        elif roll < 0.66:
            x = {"type": "map", "values": self.type(depth - 1, ns)}
        elif roll < 0.78 and not in_union:
            alts = [self.type(depth - 1, ns, True) for _ in range(r.randint(1, 3))]
            if r.random() < 0.7:
                alts.insert(r.choice([0, 0, len(alts)]), "null")
            return alts if r.random() < 0.8 else {"type": alts} if r.random() < 0.7 else {"type": "union", "types": alts}
        elif roll < 0.84:
            part, _, full = self.name(ns)
            x = {"type": "enum", **part, "symbols": r.sample(["A", "B", "C", "D", "e1", "a", "_x", "NULL"], r.randint(1, 5)) if r.random() < 0.95 else ["S%d" % i for i in range(40, 0, -1)]}
            if r.random() < 0.2:
                x["default"] = r.choice(x["symbols"])
            self.defined.append(full)
        elif roll < 0.9:
            part, _, full = self.name(ns)
            x = {"type": "fixed", **part, "size": r.choice([0, 1, 2, 12, 16, 1000, 2**31, 2**40])}
            self.defined.append(full)
        else:
            return self.record(depth, ns)
        if x["type"] in ("array", "map") and r.random() < 0.1:
            x["doc"] = "coll"
        return self.shuffle(x)

    def shuffle(self, x):
        it = list(x.items())
        self.r.shuffle(it)
        return dict(it)

    def logical(self, ns):
        r = self.r
        k = r.choice(["uuid", "date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "decimal", "decimal", "duration", "fdecimal"])
        base = {"uuid": "string", "date": "int", "time-millis": "int"}.get(k, "long")
        if k == "decimal":
            x = {"type": "bytes", "logicalType": "decimal", "precision": r.choice([1, 9, 38, 1000])}
            if r.random() < 0.6:
                x["scale"] = r.choice([0, 2, 9])
            return self.shuffle(x)
        if k in ("duration", "fdecimal"):
            part, _, full = self.name(ns)
            self.defined.append(full)
            if k == "duration":
                return {"type": "fixed", **part, "size": 12, "logicalType": "duration"}
            return {"type": "fixed", **part, "size": r.choice([4, 16]), "logicalType": "decimal", "precision": 4, "scale": 1}
        return {"type": base, "logicalType": k}

    def record(self, depth, ns, root=False):
        r = self.r
        part, ns2, full = self.name(ns)
        self.defined.append(full)
        fields = []
        for i in range(r.randint(1 if root else 0, 4) if r.random() < 0.97 else r.choice([9, 21, 40])):
            if i > 8:
                depth = min(depth, 2)
            f = {"name": r.choice(["id", "value", "next", "T1", "data"]) + str(i), "type": self.type(depth - 1, ns2)}
            if r.random() < 0.15 and isinstance(f["type"], dict) and f["type"].get("type") in ("array", "map") :
                f = {**f["type"], **f, "type": f["type"]["type"]}        # collection written in line
            elif r.random() < 0.1 and isinstance(f["type"], dict) and "logicalType" in f["type"] and "name" not in f["type"]:
                f = {**f["type"], "name": f["name"]}
            if r.random() < 0.3:
                f["doc"] = r.choice(["field doc", "ü", ""])
            if r.random() < 0.3:
                f["default"] = r.choice([None, 0, "", "x", [], {}, True, False, 1.5, -1, 0.0, [0], {"a": None}])
            if r.random() < 0.05:
                f["order"] = "ignore"
            if r.random() < 0.05:
                f["aliases"] = ["old_name"]
            fields.append(self.shuffle(f))
        return self.shuffle({"type": "record", **part, "fields": fields})

    def root(self):
        r = self.r
        x = self.record(r.choice([1, 2, 3, 4]), "", root=True)
        roll = r.random()
        if roll < 0.03:
            return r.choice(["int", "string"])
        if roll < 0.06:
            return {"type": "array", "items": x}
        if roll < 0.08:
            return {"type": "enum", "name": "E", "symbols": ["A"]}
        if roll < 0.12 and isinstance(x, dict):
            x["fields"].append({"name": "bad", "type": r.choice([{"type": "string", "logicalType": "nosuch"}, {"type": "bytes", "logicalType": "big-decimal"},
                {"type": "int", "logicalType": "decimals"}, {"type": "long", "logicalType": "local-timestamp-millis"}, {"type": "array", "items": {"type": "string", "logicalType": "Uuid"}}])})
        return x


HOSTS = ["ex.com", "example.org", "a.b.example.net", "schemas.x1.io", "localhost:8080", "my-host.com", "10.0.0.1", "single"]
QUERIES = [""] * 8 + ["?q=1", "?V=Ab/c"]
FRAGS = [""] * 6 + ["#", "#frag", "#Frag-1"]
PATHS = ["/s{n}", "/Schemas/T-{n}.json", "/v{n}/type", "/a_b/c.d{n}/", "/X{n}", "/UP/{n}/lower/x.y-Z", "/{n}", "//d{n}", "/2024-01/{n}x"]


class JsonGen:
    """A JSON schema of an object and the documents it can reach."""

    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.docs: dict[str, dict] = {}
        self.pool: list[str] = []      # URLs of documents
        self.inner: list[str] = []     # $ids seen so far in the document being built

    count = 0     # retrieved documents are cached, so each has its own URL

    def url(self, inner=False):
        JsonGen.count += 1
        self.n = JsonGen.count
        r = self.r
        if inner and r.random() < 0.15:
            return r.choice(["urn:example:t{n}", "urn:Ex:A:b-{n}", "/schemas/address{n}", "person{n}.schema.json", "/Up/{n}"]).format(n=self.n)
        u = r.choice(["http://", "https://"]) + r.choice(HOSTS) + r.choice(PATHS).format(n=self.n)
        if inner:
            u += r.choice(QUERIES) + r.choice(FRAGS)
        return u

    def schema(self, depth):
        r = self.r
        roll = r.random()
        if depth <= 0 or roll < 0.35:
            x = {"type": r.choice(["string", "string", "number", "integer", "boolean", "null"])}
            if x["type"] == "string" and r.random() < 0.6:
                x["format"] = r.choice(["bytes", "date", "date-time", "time", "email", "uuid", "duration", ""])
            elif r.random() < 0.1:
                x["format"] = r.choice(["int64", "date", "bytes"])
        elif roll < 0.45:
            x = {"type": r.sample(["string", "number", "integer", "boolean", "null"], r.randint(1, 3))}
        elif roll < 0.6:
            x = {"type": "array", "items": self.schema(depth - 1)}
        elif roll < 0.8 and (self.pool or self.inner):
            x = {r.choice(["$ref", "$ref", "$ref", "$dynamicRef"]): r.choice(self.pool + self.inner)}
            return self.texts(x)
        elif roll < 0.82:
            x = r.choice([{"type": "object"}, {"type": "array"}, {"type": "tuple"}, {}, {"enum": ["a"]}, {"$ref": "http://nowhere.example/x"},
                          True, {"oneOf": [{"type": "string"}]}, {"type": ["object", "null"], "properties": {}}])
            return x
        else:
            return self.object(depth)
        if r.random() < 0.1:
            u = self.url(True)
            x["$id"] = u
            self.inner.append(u)
        return self.texts(x)

    def texts(self, x):
        r = self.r
        if r.random() < 0.25:
            x["description"] = r.choice(["d1", "some text", "é", "", " x\ny "])
        if r.random() < 0.25:
            x["default"] = r.choice([None, 0, False, True, "", "x", [], {}, 1.5, 0.0, -1, [None], {"a": [1]}])
        if r.random() < 0.1:
            x["title"] = "a title"
        if r.random() < 0.1:
            x["minimum"] = 3
        it = list(x.items())
        r.shuffle(it)
        return dict(it)

    def object(self, depth, id_=None, extra=()):
        r = self.r
        props = {}
        x = {"type": "object", "properties": props}
        if id_ or r.random() < 0.15:
            x["$id"] = id_ or self.url(True)
            if not id_:
                self.inner.append(x["$id"])
        for nm in r.sample(["id", "name", "z", "a", "value", "Next", "items", "type", "$x", "é", "", "A", "properties", "required"] + ["p%d" % i for i in range(30)],
                              r.randint(0, 4) if r.random() < 0.97 else r.choice([9, 21, 40])):
            props[nm] = self.schema(depth - 1)
        for nm, s in extra:
            props[nm] = s
        if r.random() < 0.7:
            x["required"] = [p for p in props if r.random() < 0.5] + (["absent"] if r.random() < 0.1 else [])
            r.shuffle(x["required"])
        return self.texts(x)

    def case(self):
        r = self.r
        self.pool = [self.url() for _ in range(r.randint(0, 3))]
        for u in self.pool:
            self.inner = []
            d = self.object(r.choice([1, 2]), u) if r.random() < 0.6 else self.texts({"$id": u, **r.choice([{"type": "string"}, {"type": "integer"},
                {"type": "array", "items": {"$ref": r.choice(self.pool)}}, {"type": ["string", "null"]}])})
            self.docs[u] = d
        self.inner = []
        root = self.url(True) if r.random() < 0.6 else None
        if root:
            self.inner = [root]
        x = self.object(r.choice([1, 2, 3]), root)
        if r.random() < 0.03:
            x = r.choice([{"type": "string"}, {"type": "array", "items": x}, {"type": ["null"]}, "string", {}])
        return x, self.docs

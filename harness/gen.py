"""Seeded random generators of Recap types (T values) and descriptions."""
from __future__ import annotations

from enc import T, attrs, j

BUILTINS = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16",
            "float32", "float64", "string32", "string64", "bytes32", "bytes64", "uuid", "decimal128",
            "decimal256", "duration64", "interval128", "time32", "time64", "timestamp64", "date32", "date64"]
SIZES = [1, 2, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 65535, 65536, 2**31 - 1]
LENS = SIZES + [2**31, 2**32, 2**63 - 2, 2**63 - 1]
NAMES = ["a", "b", "id", "name", "value", "f1", "x", "created_at", "Type", "ÿé", "日本", "with space", "dash-ed",
         "default", "doc", "null", "true", "q\"uote", "back\\slash", "tab\tx", "_u", "0"]
IDENT = ["a", "b", "id", "name", "value", "f1", "x", "created_at", "Kind", "_u", "fooBar", "z9"]
VALUES = [None, True, False, 0, 1, -1, 2**40, -(2**70), 1.5, -0.25, 1e100, "", "x", "null", "ünï", [], [1, None],
          {}, {"k": [1, {"z": "y"}]}, "multi\nline"]
EXTRA = ["x", "x-y", "note", "ünïcode", "precision", "unit", "timezone", "title", "pk", "low", "comment", "tags", "format", "order", "scale", "id", "", "_p"]
LOGICALS = ["build.recap.Decimal", "build.recap.Date", "build.recap.Time", "my.Logical", "x"]


class Gen:
    def __init__(self, rng, *, ident=False, aliases=True, proxies=True, extras=True, logical=True, ns="v",
                 defaults=True, blankdoc=True):
        self.r = rng
        self.names = IDENT if ident else NAMES
        self.aliases, self.proxies, self.extras, self.logical = aliases, proxies, extras, logical
        self.defaults = defaults
        self.docs = ["some doc", "d2", "é", "multi\nline", " "] + ([""] if blankdoc else [])
        self.ns = ns
        self.n = 0
        self.declared: list[str] = []

    def fresh_alias(self):
        self.n += 1
        a = f"{self.r.choice([self.ns, self.ns + '.sub', 'other', '_r'])}.T{self.n}"
        self.declared.append(a)
        return a

    def scalar(self):
        r = self.r
        k = r.choice(["null", "bool", "int", "int", "float", "string", "string", "bytes", "enum"])
        if k == "int":
            return T("int", {"bits": r.choice(SIZES), "signed": r.random() < 0.6})
        if k == "float":
            return T("float", {"bits": r.choice(SIZES)})
        if k in ("string", "bytes"):
            m = r.random()
            if m < 0.3:
                return T(k)
            return T(k, {"bytes": r.choice(LENS), "variable": m < 0.7})
        if k == "enum":
            n = r.randint(0, 4)
            syms = r.sample(["A", "B", "RED", "x y", "1", "é"], n)
            if r.random() < 0.08:
                syms += syms[:1] + ["S%d" % i for i in range(30, 0, -1)]
            return T("enum", {"symbols": syms})
        return T(k)

    def proxy(self, must=None):
        r = self.r
        if must is None:
            pool = BUILTINS
            if self.declared and r.random() < 0.6:
                pool = self.declared
            must = r.choice(pool)
        a = {"alias": must}
        if self.extras and r.random() < 0.25:
            a[r.choice(EXTRA)] = r.choice(VALUES)
        return T("proxy", a)

    def decorate(self, t, in_struct=False):
        r = self.r
        a = t["a"]
        if in_struct:
            a["name"] = j(r.choice(self.names))
        elif self.extras and r.random() < 0.05:
            a["name"] = j(r.choice(self.names))
        if r.random() < 0.2:
            a["doc"] = j(r.choice(self.docs))
        if self.defaults and r.random() < 0.2:
            a["default"] = j(r.choice(VALUES))
        if self.extras and r.random() < 0.15:
            a[r.choice(EXTRA)] = j(r.choice(VALUES))
        if t["k"] != "proxy":
            if self.aliases and t["k"] != "null" and r.random() < 0.15:
                a["alias"] = j(self.fresh_alias())
            if self.logical and r.random() < 0.08:
                a["logical"] = j(r.choice(LOGICALS))
        return t

    def type(self, depth=3, in_struct=False, top=False):
        r = self.r
        roll = r.random()
        if top and roll < 0.7:
            t = self.struct(depth)
        elif depth <= 0 or roll < 0.35:
            t = self.scalar()
        elif self.proxies and roll < 0.48:
            t = self.proxy()
        elif roll < 0.60:
            t = T("list", {} if r.random() < 0.6 else {"length": r.choice(LENS), "variable": r.random() < 0.5},
                  self.type(depth - 1))
        elif roll < 0.68:
            key = self.type(0) if r.random() < 0.5 else self.proxy() if self.proxies and r.random() < 0.3 else T("string")
            t = T("map", {}, key, self.type(depth - 1))
        elif roll < 0.80:
            t = self.struct(depth)
        else:
            t = self.union(depth)
        return self.decorate(t, in_struct)

    def struct(self, depth, maxf=4):
        t = T("struct", {})
        n = self.r.randint(0, maxf)
        if self.r.random() < 0.02:
            n, depth = self.r.choice([9, 17, 40]), min(depth, 2)
        t["c"] = [self.type(depth - 1, True) for _ in range(n)]
        return t

    def union(self, depth):
        r = self.r
        alts = [self.type(depth - 1) for _ in range(r.randint(1, 3))]
        alts = [x for x in alts if x["k"] != "null"] or [T("bool")]
        a = {}
        if r.random() < 0.65:
            alts.insert(r.randint(0, len(alts)), T("null"))
            if r.random() < 0.1:
                alts.insert(r.randint(0, len(alts)), T("null"))
        if self.defaults and r.random() < 0.5:
            a["default"] = None if r.random() < 0.7 else r.choice(VALUES)
        return T("union", a, *alts)


def walk(t, path=()):
    yield path, t
    for i, c in enumerate(t["c"]):
        yield from walk(c, path + (i,))


def dedup_aliases(t, builtin_ok=False):
    """Drop repeated alias declarations (the generator makes them unique already)."""
    seen = set()
    for _, n in walk(t):
        if n["k"] != "proxy" and "alias" in attrs(n):
            v = n["a"]["alias"]["v"]
            if v in seen:
                del n["a"]["alias"]
            seen.add(v)
    return t

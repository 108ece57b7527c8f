"""Protobuf files as plain trees, as text, and as the parser library's objects."""
from __future__ import annotations


def el(e, name="", type="", card="", num="", els=(), kt="", vt=""):
    return {"e": e, "name": name, "type": type, "card": card, "num": num, "kt": kt, "vt": vt, "els": list(els)}


def text(f, rng=None):
    """Print a file; with rng, in a random layout with comments, options and other declarations."""
    out = []

    def p(depth, s):
        out.append("  " * depth + s)

    def noise(depth, msg):
        if rng is None or rng.random() > 0.15:
            return
        c = ["// a comment; message X {}", "/* int32 nope = 1; */", ""]
        if msg == "message":
            c += ['reserved 900 to 950;', 'reserved "gone", "lost";', 'option deprecated = true;', ';']
        elif msg == "enum":
            c += ['option allow_alias = true;', 'reserved 900 to 950;', 'reserved "GONE";', ';']
        elif msg == "file":
            c += ['import "google/protobuf/timestamp.proto";', 'option java_package = "com.x";', ';']
        p(depth, rng.choice(c))

    def opts():
        if rng is None or rng.random() > 0.1:
            return ""
        return rng.choice([" [deprecated = true]", " [json_name = \"zz\"]", " [(my.opt) = 5, deprecated = false]"])

    def go(x, d, parent):
        noise(d, parent)
        e = x["e"]
        if e in ("message", "enum", "oneof"):
            p(d, f"{e} {x['name']} {{")
            for y in x["els"]:
                go(y, d + 1, e)
            p(d, "}")
        elif e == "value":
            p(d, f"{x['name']} = {x['num']};")
        elif e == "map":
            sp = "" if rng and rng.random() < 0.3 else " "
            p(d, f"map<{x['kt']},{sp}{x['vt']}> {x['name']} = {x['num']}{opts()};")
        else:
            card = x["card"] + " " if x["card"] else ""
            p(d, f"{card}{x['type']} {x['name']} = {x['num']}{opts()};")

    if rng is None or rng.random() < 0.7:
        p(0, 'syntax = "%s";' % (rng.choice(["proto2", "proto3"]) if rng else "proto3"))
    at = rng.randint(0, len(f["els"])) if rng and rng.random() < 0.2 else 0
    for i, x in enumerate(f["els"]):
        if i == at and f["pkg"]:
            p(0, f"package {f['pkg']};")
        go(x, 0, "file")
    if at >= len(f["els"]) and f["pkg"]:
        p(0, f"package {f['pkg']};")
    return "\n".join(out) + "\n"


def encode(file):
    """The parser library's File as a plain tree."""
    from proto_schema_parser import ast

    def card(c):
        return "" if c is None else str(getattr(c, "value", c)).lower()

    def go(x):
        if isinstance(x, ast.Field):
            return el("field", x.name, x.type, card(x.cardinality), str(x.number))
        if isinstance(x, ast.MapField):
            return el("map", x.name, num=str(x.number), kt=x.key_type, vt=x.value_type)
        if isinstance(x, ast.OneOf):
            return el("oneof", x.name, els=[go(y) for y in x.elements])
        if isinstance(x, ast.Message):
            return el("message", x.name, els=[go(y) for y in x.elements])
        if isinstance(x, ast.Enum):
            return el("enum", x.name, els=[go(y) for y in x.elements])
        if isinstance(x, ast.EnumValue):
            return el("value", x.name, num=str(x.number))
        return el("?" + type(x).__name__)

    pkgs = [x.name for x in file.file_elements if isinstance(x, ast.Package)]
    els = [go(x) for x in file.file_elements if not isinstance(x, (ast.Package, ast.Import, ast.Option))]
    return {"pkg": ".".join(pkgs) if len(pkgs) < 2 else "?" + "|".join(pkgs), "els": els}


EMPTY = {"pkg": "", "els": []}
SCALARS = ["string", "bool", "bytes", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "float", "double",
           "fixed32", "fixed64", "sfixed32", "sfixed64"]
KEYS = [s for s in SCALARS if s not in ("bytes", "float", "double")]
KNOWN = ["google.protobuf.Timestamp", "google.protobuf.Duration", "google.protobuf.NullValue"]


class ProtoGen:
    """Files whose references all have exactly one meaning under Protobuf's scoping rules."""

    def __init__(self, rng):
        self.r = rng

    def file(self):
        r = self.r
        self.pkg = r.choice(["", "pk", "pk.q", "a.b.c", "com.example.team.v1", "a.B.c.D.e"])
        self.n = 0
        ns = self.pkg or "_root"
        tree = [self.decl(ns, r.choice([1, 2, 3])) for _ in range(r.randint(1, 5))]
        if r.random() > 0.04 and not any(x["e"] == "message" for x in tree):
            tree.insert(r.randint(0, len(tree)), self.decl(ns, 2, "message"))
        self.names = set()
        self.collect(tree, ns)
        for x in tree:
            self.fill(x, f"{ns}.{x['name']}")
        return {"pkg": self.pkg, "els": tree}

    def decl(self, scope, depth, kind=None, taken=None):
        r = self.r
        self.n += 1
        # inner names repeat in different messages; names of a scope are distinct
        name = f"M{self.n}" if scope == (self.pkg or "_root") or r.random() < 0.5 else r.choice(["In", "Nest", "Kind", "Item"])
        while taken is not None and name in taken:
            self.n += 1
            name = f"M{self.n}"
        if taken is not None:
            taken.add(name)
        kind = kind or r.choice(["message", "message", "message", "enum"])
        x = el(kind, name)
        if kind == "enum":
            x["els"] = [el("value", s + str(self.n), num=str(v)) for s, v in self.values()]
        elif depth > 0:
            inner = set()
            x["els"] = [self.decl(f"{scope}.{name}", depth - 1, taken=inner) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
        return x

    def values(self):
        r = self.r
        syms = r.sample(["A", "B", "RED", "unknown", "x_1"], r.randint(1, 4)) if r.random() < 0.95 else ["S%d_" % i for i in range(30, 0, -1)]
        step = r.choice([1, 1, 5, -1, -7])
        vals = [i * step for i in range(len(syms))]
        if r.random() < 0.2:
            r.shuffle(vals)
        return zip(syms, vals)

    def collect(self, els, scope):
        for x in els:
            if x["e"] in ("message", "enum"):
                n = f"{scope}.{x['name']}"
                self.names.add(n)
                self.collect(x["els"], n)

    def ref(self, scope):
        """Some spelling of some definition that means it from within scope."""
        r = self.r
        ns = self.pkg or "_root"
        for _ in range(20):
            target = r.choice(sorted(self.names))
            parts = target.split(".")
            k = r.randint(1, len(parts))
            s = ".".join(parts[-k:])
            if s.startswith("_root"):
                continue
            if r.random() < 0.15:
                return "." + (target if self.pkg else target[len("_root."):])
            # the innermost scope that has the first component must give the target
            first, sc, got = parts[-k], scope, None
            while True:
                cand = f"{sc}.{first}" if sc else first
                if cand in self.names or any(n.startswith(cand + ".") for n in self.names):
                    got = f"{sc}.{s}" if sc else s
                    break
                if not sc:
                    break
                sc = sc.rpartition(".")[0]
            if got == target:
                return s
        return None

    def type(self, scope):
        r = self.r
        roll = r.random()
        if roll < 0.45:
            return r.choice(SCALARS)
        if roll < 0.55:
            return r.choice(["", "", "."]) + r.choice(KNOWN)
        return self.ref(scope) or "string"

    def fill(self, x, scope):
        r = self.r
        if x["e"] != "message":
            return
        for y in x["els"]:
            self.fill(y, f"{scope}.{y['name']}")
        num = 0

        def nxt():
            nonlocal num
            num += r.choice([1, 1, 2, 100])
            return str(num)
        fields = []
        for i in range(r.randint(0, 5) if r.random() < 0.98 else r.choice([9, 17, 30])):
            roll = r.random()
            nm = r.choice(["id", "value", "next", "message", "Name", "f", "_x"]) + str(i)
            if roll < 0.7:
                fields.append(el("field", nm, self.type(scope), r.choice(["", "", "optional", "required", "repeated"]), nxt()))
            elif roll < 0.85:
                fields.append(el("map", nm, num=nxt(), kt=r.choice(KEYS), vt=self.type(scope)))
            else:
                ms = [el("field", f"{nm}_{k}", self.type(scope), "", nxt()) for k in range(r.randint(1, 4) if r.random() < 0.95 else 12)]
                fields.append(el("oneof", nm, els=ms))
        at = sorted(r.randint(0, len(fields)) for _ in x["els"])
        for i, y in reversed(list(zip(at, x["els"]))):
            fields.insert(i, y)
        x["els"] = fields

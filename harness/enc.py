"""Encoding of Python values for TLC.

J (JSON values): uniform tagged records, so that TLC can compare any two of them:
  {"t":"null"} {"t":"bool","v":"true"} {"t":"int","v":"12"} {"t":"float","v":"1.5"}
  {"t":"str","v":"x"} {"t":"arr","c":[J..]} {"t":"obj","ks":[keys],"m":{key:J}}
T (Recap types): {"k":kind,"a":{attribute:J},"c":[T..]}; children are the list's values,
  the map's keys and values, the struct's fields, the union's alternatives.  An absent
  logical/alias/doc/bytes/length has no attribute; a present extra attribute with value
  None is {"t":"null"}.  Numbers are decimal strings: TLC's integers have 32 bits.
"""
from __future__ import annotations

import math


def j(x, ordered=False):
    try:
        return _j(x, ordered)
    except RecursionError:
        return {"t": "py", "v": "endless"}


def _j(x, ordered=False):
    if x is None:
        return {"t": "null"}
    if x is True or x is False:
        return {"t": "bool", "v": "true" if x else "false"}
    if isinstance(x, str):
        return {"t": "str", "v": str(x)}
    if isinstance(x, int):
        return {"t": "int", "v": str(int(x))}
    if isinstance(x, float):
        return {"t": "float", "v": repr(float(x))}
    if isinstance(x, (list, tuple)):
        return {"t": "arr", "c": [_j(y, ordered) for y in x]}
    if isinstance(x, dict):
        ks = list(x)
        if not all(isinstance(k, str) for k in ks):
            return {"t": "py", "v": "dict with non-string keys"}
        if not ordered:
            ks = sorted(ks)
        return {"t": "obj", "ks": [str(k) for k in ks], "m": {k: _j(x[k], ordered) for k in ks}}
    return {"t": "py", "v": type(x).__name__}


def unj(d):
    t = d["t"]
    if t == "null":
        return None
    if t == "bool":
        return d["v"] == "true"
    if t == "int":
        return int(d["v"])
    if t == "float":
        return float(d["v"])
    if t == "str":
        return d["v"]
    if t == "arr":
        return [unj(x) for x in d["c"]]
    if t == "obj":
        m = d["m"] or {}
        return {k: unj(m[k]) for k in d["ks"]}
    raise ValueError(d)


KINDS = {"null", "bool", "int", "float", "string", "bytes", "list", "map", "struct",
         "enum", "union", "proxy"}
OWN = {"int": ("bits", "signed"), "float": ("bits",), "string": ("bytes_", "variable"),
       "bytes": ("bytes_", "variable"), "list": ("length", "variable"), "enum": ("symbols",)}


def t(x, depth=0):
    """Encode a RecapType object by its public attributes."""
    from recap.types import RecapType

    if depth > 60:
        return {"k": "?deep", "a": {}, "c": []}
    if not isinstance(x, RecapType):
        return {"k": "?" + type(x).__name__, "a": {"v": j(x)}, "c": []}
    k = x.type_ if x.type_ in KINDS else "?" + str(x.type_)
    a = {}
    for n, v in (x.extra_attrs or {}).items():
        if n in ("doc", "alias", "logical", "type_", "type", "bytes_"):
            n = "x:" + n          # misplaced attribute: visible as a difference
        a[str(n)] = j(v)
    for n in ("logical", "alias", "doc"):
        v = getattr(x, n)
        if v is not None:
            a[n] = j(v)
    for n in OWN.get(k, ()):
        v = getattr(x, n)
        if v is None and n in ("bytes_", "length"):
            continue
        a[n.rstrip("_")] = j(v)
    if k == "list":
        c = [x.values]
    elif k == "map":
        c = [x.keys, x.values]
    elif k == "struct":
        c = x.fields
    elif k == "union":
        c = x.types
    else:
        c = []
    return {"k": k, "a": a, "c": [t(y, depth + 1) for y in c]}


def build(d, registry=None, repeats=False):
    """Build the real RecapType for a T value (proxies share one registry)."""
    import recap.types as rt

    if registry is None:
        registry = rt.RecapTypeRegistry()
        _declare(d, registry, set() if repeats else None)
    return _build(d, registry)


def _declare(d, registry, seen=None):
    """Register the aliases declared in d, innermost first, as from_dict would; given seen, each of them once."""
    for c in d["c"]:
        _declare(c, registry, seen)
    if d["k"] != "proxy" and "alias" in attrs(d):
        if seen is not None:
            if d["a"]["alias"]["v"] in seen:
                return
            seen.add(d["a"]["alias"]["v"])
        registry.register_alias(_build(d, registry))


def attrs(d):
    return d["a"] or {}


def _build(d, registry):
    import recap.types as rt

    k = d["k"]
    kw = {n: unj(v) for n, v in attrs(d).items()}
    if k in ("string", "bytes") and "bytes" in kw:
        kw["bytes_"] = kw.pop("bytes")
    c = [_build(x, registry) for x in d["c"]]
    if k == "list":
        return rt.ListType(c[0], **kw)
    if k == "map":
        return rt.MapType(c[0], c[1], **kw)
    if k == "struct":
        return rt.StructType(c, **kw)
    if k == "union":
        return rt.UnionType(c, **kw)
    if k == "proxy":
        return rt.ProxyType(kw.pop("alias"), registry, **kw)
    return {"null": rt.NullType, "bool": rt.BoolType, "int": rt.IntType, "float": rt.FloatType,
            "string": rt.StringType, "bytes": rt.BytesType, "enum": rt.EnumType}[k](**kw)


def T(k, a=None, *c):
    """Write a T value with plain Python attributes."""
    base = {"int": {"signed": True}, "string": {"variable": True}, "bytes": {"variable": True},
            "list": {"variable": True}}.get(k, {})
    aa = {**base, **(a or {})}
    return {"k": k, "a": {n: j(v) for n, v in aa.items()}, "c": list(c)}


def longdict(d):
    """The long-form description of a T value, as plain Python data."""
    a = {n: unj(v) for n, v in attrs(d).items()}
    k = d["k"]
    if k == "proxy":
        return {"type": a.pop("alias"), **a}
    c = [longdict(x) for x in d["c"]]
    sub = {}
    if k == "list":
        sub = {"values": c[0]}
    elif k == "map":
        sub = {"keys": c[0], "values": c[1]}
    elif k == "struct":
        sub = {"fields": c}
    elif k == "union":
        sub = {"types": c}
    return {"type": k, **sub, **a}


def kids(x):
    """The child objects of a RecapType, in the order of T's children."""
    k = x.type_
    if k == "list":
        return [x.values]
    if k == "map":
        return [x.keys, x.values]
    if k == "struct":
        return x.fields
    if k == "union":
        return x.types
    return []


def refs(x):
    """Reference objects in a RecapType, in preorder."""
    if x.type_ == "proxy":
        return [x]
    return [r for c in kids(x) for r in refs(c)]


def node(x, path):
    for i in path:
        x = kids(x)[i - 1]
    return x

"""Types as recap's readers produce them, to be used as inputs of its writers."""
import gen
import enc
from vlib import call

LANGS = ["avro", "json", "protobuf", "mysql", "postgresql", "snowflake", "bigquery", "hive"]


def types(r, n, langs=LANGS):
    from checks import c25
    out = []
    for i in range(n):
        lang = langs[i % len(langs)]
        kind, x = c25.make(c25.source(r, lang))
        st, t = call(c25.Converters().read, lang, x, True)
        if st != "ok":
            continue
        t = enc.t(t)
        if not any(m["k"].startswith("?") or any(k.startswith("x:") for k in m["a"]) for _, m in gen.walk(t)):
            out.append(t)
    return out


def buildable(t):
    """Each alias is declared once, so the type can be built from its description."""
    seen = [enc.attrs(n)["alias"]["v"] for _, n in gen.walk(t) if n["k"] != "proxy" and "alias" in enc.attrs(n)]
    return len(seen) == len(set(seen))

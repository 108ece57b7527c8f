"""C17: column types of the SQL systems."""
import json

import enc
import sqlemu
import sqlgen
from checks.c10 import resolutions
from vlib import call


def converter(sys, enforce=False, ns=None):
    import importlib
    m = importlib.import_module(f"recap.converters.{sys}")
    if sys == "postgresql":
        return m.PostgresqlConverter(enforce_array_dimensions=enforce, **({"namespace": ns} if ns else {}))
    return getattr(m, {"mysql": "MysqlConverter", "snowflake": "SnowflakeConverter"}[sys])()


def rows(sys, cols):
    out = []
    for i, c in enumerate(cols):
        row = {k.upper(): v for k, v in sqlemu.info_row(sys, c, pos=i + 1).items()}
        if sys == "postgresql":
            row["ATTNDIMS"] = sqlemu.raw(c["ndims"])
            row["ENUM_VALUES"] = list(c["enums"]) or None
        out.append(row)
    return out


def q(name):
    return '"' + name.replace('"', '""') + '"'


def sqlite_db(tables, path=":memory:"):
    """A real SQLite database with the tables {name: cols}."""
    import sqlite3
    con = sqlite3.connect(path)
    for t, cols in tables.items():
        parts = []
        pks = [c["name"] for c in sorted(cols, key=lambda c: c.get("pk") or 0) if c.get("pk")]
        for c in cols:
            d = enc.unj(c["def"])
            parts.append(q(c["name"]) + " " + c["type"] + ("" if c["null"] or c.get("pk") else " NOT NULL")
                         + ("" if d is None else f" DEFAULT {d}") + (" PRIMARY KEY" if c.get("pk") and len(pks) == 1 else "") + (c.get("gen") or ""))
        if len(pks) > 1:
            parts.append(f"PRIMARY KEY ({', '.join(map(q, pks))})")
        con.execute(f"CREATE TABLE {q(t)} ({', '.join(parts)})")
    con.commit()
    return con


def read_type(sys, c, enforce, ns=None):
    if sys == "sqlite":
        from recap.clients.sqlite import SQLiteClient
        con = sqlite_db({"t": [c]})
        try:
            return call(SQLiteClient(con).schema, "t")
        finally:
            con.close()
    return call(converter(sys, enforce, ns).to_recap, rows(sys, [c]))


def observe(sys, c, enforce, ns=None):
    st, t = read_type(sys, c, enforce, ns)
    return {"op": "type", "sys": sys, "enforce": enforce, "cols": [c], "st": st, "t": enc.t(t) if st == "ok" else enc.T("null"),
            "refs": resolutions(t) if st == "ok" else []}


def tables(ctx, pairs):
    """Tables enumerated by TLC: all single columns, or combinations of a few."""
    r = ctx.explore("MC_Sql", "SPECIFICATION Spec\nCONSTANTS\n MaxCols = %d\n Pairs = %s\nINVARIANTS OnePerColumn Emit\nCHECK_DEADLOCK FALSE\n"
                    % ((2 if ctx.quick else 3) if pairs else 1, "TRUE" if pairs else "FALSE"), workers=6, heap="6g")
    out, seen = [], set()
    for ln in r.lines:
        h = json.dumps(ln, sort_keys=True)
        if h not in seen:
            seen.add(h)
            for c in ln["cols"]:
                c["enums"] = list(c["enums"] or [])
            out.append((ln["sys"], ln["cols"]))
    ctx.extra["tables_enumerated_by_tlc"] = ctx.extra.get("tables_enumerated_by_tlc", 0) + len(out)
    return out


def run(ctx):
    r = ctx.rng
    cases = []
    if ctx.replay:
        rec = ctx.replay["record"]
        cases = [(rec["sys"], rec["cols"][0], rec["enforce"], None)]
    else:
        for sys, cols in tables(ctx, False):
            c = cols[0]
            if c["null"] or c["def"]["t"] != "null":
                continue
            for e in (False, True) if sys == "postgresql" else (False,):
                cases.append((sys, c, e, None))
        for _ in range(600 if ctx.quick else 15000):
            for sys in ("mysql", "postgresql", "snowflake", "sqlite"):
                c = sqlgen.column(sys, r)
                c["name"] = r.choice(sqlgen.NAMES)
                cases.append((sys, c, r.random() < 0.5, r.choice([None, None, "v.w"])))
        for sys, ts in sqlgen.UNKNOWN.items():
            for t in ts:
                cases.append((sys, sqlgen.mk(type=sqlgen.case(r, t), name="c"), False, None))
        for u in sqlgen.UNKNOWN_UDT:
            for e in (False, True):
                cases.append(("postgresql", sqlgen.mk(type="ARRAY", udt=u, ndims=1, name="c"), e, None))
    recs = [observe(*c) for c in cases]
    ctx.extra["accepted"] = sum(x["st"] == "ok" for x in recs)
    for x in recs[-2:]:
        ctx.sample({"system": x["sys"], "column": x["cols"][0], "outcome": x["st"]})
    ctx.judge("Trace_Sql", recs)

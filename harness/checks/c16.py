"""C16: tables read through the real clients, in histories of several reads."""
import contextlib
import importlib
import pathlib
import sqlite3
import tempfile

import enc
import sqlemu
import sqlgen
from checks import c17
from enc import j
from vlib import call

CLIENT = {"mysql": ("recap.clients.mysql", "MysqlClient"), "postgresql": ("recap.clients.postgresql", "PostgresqlClient"),
          "snowflake": ("recap.clients.snowflake", "SnowflakeClient"), "sqlite": ("recap.clients.sqlite", "SQLiteClient")}


def client_class(sys):
    m, c = CLIENT[sys]
    return getattr(importlib.import_module(m), c)


def client_args(sys, path=None):
    if sys == "sqlite":
        return {"url": f"sqlite:///{path}"}
    return {"host": "h", "user": "u", "password": "p", "paths": ["c"]}


def table_args(sys, cat, sch, tab):
    return {"mysql": (sch, tab), "sqlite": (tab,)}.get(sys, (cat, sch, tab))


class History:
    """One database with some tables, read again and again through several clients."""

    def __init__(self, sys, tables, rng, scratch):
        self.sys, self.tables, self.r = sys, tables, rng
        self.reads = {t: [] for t in tables}
        self.unsupported = None
        self.path = pathlib.Path(tempfile.mkdtemp(dir=scratch)) / "x.db"

    def run(self, order):
        """order: sequence of (client number, table); a client is opened at its first use."""
        with contextlib.ExitStack() as st:
            if self.sys == "sqlite":
                c17.sqlite_db(self.tables, str(self.path)).close()
            else:
                cat = "def" if self.sys == "mysql" else "c"
                server = sqlemu.Server(self.sys, [{"cat": cat, "sch": "s", "tab": t, "cols": cols} for t, cols in self.tables.items()]
                                       + [{"cat": cat, "sch": "s2", "tab": t, "cols": cols[1:]} for t, cols in self.tables.items()], self.r.random())
                st.enter_context(sqlemu.driver(self.sys, server.connect))
            clients = {}
            for n, t in order:
                if n not in clients:
                    s, c = call(lambda: st.enter_context(client_class(self.sys).create(**client_args(self.sys, self.path))))
                    clients[n] = c if s == "ok" else None
                cl = clients[n]
                s, v = call(cl.schema, *table_args(self.sys, "c", "s", t)) if cl is not None else ("err", None)
                self.reads[t].append({"st": s, "t": enc.t(v) if s == "ok" else enc.T("null")})
            if self.sys != "sqlite":
                self.unsupported = server.unsupported
        return self

    def records(self):
        return [{"op": "table", "sys": self.sys, "enforce": False, "cols": self.tables[t], "reads": r} for t, r in self.reads.items() if r]


def converter_history(sys, tabs, rng):
    """The same converter object used for several tables, in turn."""
    enforce = rng.random() < 0.5
    conv = c17.converter(sys, enforce)
    out = {t: [] for t in tabs}
    for t in rng.choices(list(tabs), k=2 * len(tabs)) if len(tabs) > 1 else list(tabs) * 2:
        s, v = call(conv.to_recap, c17.rows(sys, tabs[t]))
        out[t].append({"st": s, "t": enc.t(v) if s == "ok" else enc.T("null")})
    return [{"op": "table", "sys": sys, "enforce": enforce, "cols": tabs[t], "reads": r} for t, r in out.items() if r]


def sqlite_ok(cols, r):
    """Defaults that are valid SQL, and some primary keys and generated columns."""
    for c in cols:
        d = enc.unj(c["def"])
        if d is not None:
            c["def"] = j({"": "''", "x": "'x'", "nextval('s'::regclass)": "CURRENT_DATE", "ü": "'ü'", "false": "FALSE"}.get(d, d))
    if cols and r.random() < 0.3:
        for i, c in enumerate(r.sample(cols, r.choice([1, 1, min(2, len(cols)), min(3, len(cols))]))):
            c["pk"], c["null"] = i + 1, False
    rest = [c for c in cols if not c.get("pk") and c["def"]["t"] == "null"]
    if len(rest) > 1 and len(cols) > 1 and r.random() < 0.2:
        c = r.choice(rest)
        c["gen"] = r.choice([" AS (1)", " GENERATED ALWAYS AS (1)", " GENERATED ALWAYS AS (2) STORED"])
    return cols


def run(ctx):
    sqlemu.install()
    r = ctx.rng
    recs, skipped = [], {}
    if ctx.replay:
        rec = ctx.replay["record"]
        h = History(rec["sys"], {"t": rec["cols"]}, r, ctx.work).run([(0, "t"), (0, "t"), (1, "t")])
        recs = h.records()
        if rec["sys"] != "sqlite":
            recs += converter_history(rec["sys"], {"t": rec["cols"]}, r)
        ctx.judge("Trace_Sql", recs)
        return
    plans = []
    for sys, cols in c17.tables(ctx, False) + c17.tables(ctx, True):
        if sys == "sqlite":
            cols = sqlite_ok(cols, r)
        plans.append((sys, {"t": cols}, [(0, "t"), (0, "t"), (1, "t")]))
    for _ in range(150 if ctx.quick else 4000):
        for sys in ("mysql", "postgresql", "snowflake", "sqlite"):
            tabs = {}
            for t in r.sample(["t", "users", "u2", "Orders"], r.randint(1, 3)):
                cols = sqlgen.table(sys, r)
                if sys == "sqlite":
                    cols = sqlite_ok(cols, r)
                    if not cols:
                        continue
                tabs[t] = cols
            if tabs:
                plans.append((sys, tabs, [(r.randint(0, 2), r.choice(list(tabs))) for _ in range(r.randint(2, 7))]))
    for sys, tabs, order in plans:
        h = History(sys, tabs, r, ctx.work).run(order)
        if h.unsupported:
            skipped[sys] = h.unsupported
        else:
            recs += h.records()
        if sys != "sqlite" and r.random() < 0.5:
            recs += converter_history(sys, tabs, r)
    ctx.extra["histories"] = len(plans)
    ctx.extra["statements_not_executable_here"] = skipped
    ctx.assumptions.append("MySQL, PostgreSQL and Snowflake metadata is served by SQLite behind the drivers' connect functions")
    for x in recs[-2:]:
        ctx.sample({"system": x["sys"], "columns": [c["type"] for c in x["cols"]], "reads": len(x["reads"])})
    ctx.judge("Trace_Sql", recs)

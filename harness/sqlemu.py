"""Databases that answer from an in-memory SQLite catalogue, behind the drivers' interfaces.

The real clients run unchanged; only the drivers' connect functions are replaced.  The
statements they send are executed against the metadata tables that the real database would
have (information_schema, pg_catalog), so what is observed is the answer, not the SQL text.
"""
from __future__ import annotations

import contextlib
import json
import random
import re
import sqlite3

ARR = "\x00arr:"
_connect = sqlite3.connect


class Unsupported(Exception):
    """The statement cannot be executed here (no verdict)."""


class ArrayAgg:
    def __init__(self):
        self.v = []

    def step(self, *a):
        self.v.append(a[0])

    def finalize(self):
        return ARR + json.dumps(self.v)


def raw(x):
    return None if x["t"] == "null" else int(x["v"]) if x["t"] == "int" else x["v"]


INFO = ["table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type",
        "character_maximum_length", "character_octet_length", "numeric_precision", "numeric_precision_radix", "numeric_scale", "datetime_precision",
        "interval_type", "character_set_name", "collation_name", "domain_name", "udt_catalog", "udt_schema", "udt_name", "is_identity", "is_generated"]
MYINFO = ["table_catalog", "table_schema", "table_name", "column_name", "ordinal_position", "column_default", "is_nullable", "data_type",
          "character_maximum_length", "character_octet_length", "numeric_precision", "numeric_scale", "datetime_precision", "character_set_name",
          "collation_name", "column_type", "column_key", "extra", "privileges", "column_comment"]
SYSTEMS = ("mysql", "postgresql", "snowflake")


def info_row(sys, c, cat="c", sch="s", tab="t", pos=1):
    """The row that the database's information_schema.columns has for a column."""
    v = {"table_catalog": cat, "table_schema": sch, "table_name": tab, "column_name": c["name"], "ordinal_position": pos,
         "column_default": raw(c["def"]), "is_nullable": "YES" if c["null"] else "NO", "data_type": c["type"],
         "character_maximum_length": raw(c["maxlen"]), "character_octet_length": raw(c["octets"]), "numeric_precision": raw(c["prec"]),
         "numeric_scale": raw(c["scale"]), "datetime_precision": raw(c["dtprec"]), "udt_name": c["udt"] or c["type"].lower(),
         "udt_schema": "public", "udt_catalog": cat, "column_type": c["type"], "column_key": "", "extra": "", "privileges": "select",
         "column_comment": "", "is_identity": "NO", "is_generated": "NEVER"}
    if sys == "mysql":
        return {k: v.get(k) for k in MYINFO}
    return {k: v.get(k) for k in INFO}


class Server:
    """One database server: the tables [cat, sch, tab, cols] and every statement it was sent."""

    def __init__(self, sys, db, seed=0):
        self.sys, self.db = sys, db
        self.log: list = []           # (connection number, statement, parameters)
        self.connects: list = []      # connection arguments
        self.open = 0
        self.fail_at = None           # fail the n-th interaction
        self.steps = 0
        self.unsupported = None
        self.last = None
        r = random.Random(seed)
        c = self.sql = _connect(":memory:", check_same_thread=False)
        c.create_aggregate("array_agg", -1, ArrayAgg)
        for s in ("information_schema", "pg_catalog"):
            c.execute(f"attach ':memory:' as {s}")
        cols = MYINFO if sys == "mysql" else INFO
        up = "upper" if r.random() < 0.5 and sys != "postgresql" else "lower"
        c.execute(f"create table information_schema.columns ({','.join(getattr(k, up)() for k in cols)})")
        c.execute("create table information_schema.tables (table_catalog, table_schema, table_name, table_type)")
        c.execute("create table information_schema.schemata (catalog_name, schema_name)")
        c.execute("create table information_schema.catalogs (catalog_name)")
        c.execute("create table information_schema.databases (database_name)")
        if sys == "postgresql":
            for t in ("pg_catalog.pg_database (oid, datname)", "pg_catalog.pg_namespace (oid, nspname)", "pg_catalog.pg_class (oid, relname, relnamespace, relkind)",
                      "pg_catalog.pg_attribute (attrelid, attname, attnum, attndims, atttypid, attisdropped)",
                      "pg_catalog.pg_type (oid, typname, typtype)", "pg_catalog.pg_enum (oid, enumtypid, enumsortorder, enumlabel)"):
                c.execute("create table " + t)
        rows, oid = [], 100
        cats = list(dict.fromkeys(e["cat"] for e in db))
        self.current = cats[0] if cats else "c"
        schs = list(dict.fromkeys((e["cat"], e["sch"]) for e in db))
        for x in cats:
            c.execute("insert into information_schema.catalogs values (?)", (x,))
            c.execute("insert into information_schema.databases values (?)", (x,))
            if sys == "postgresql":
                c.execute("insert into pg_catalog.pg_database values (?,?)", (oid, x))
        c.executemany("insert into information_schema.schemata values (?,?)", schs)
        ns, types = {}, {}
        for e in db:
            if e["tab"] is None:
                continue
            c.execute("insert into information_schema.tables values (?,?,?,'BASE TABLE')", (e["cat"], e["sch"], e["tab"]))
            oid += 1
            rel = oid
            if sys == "postgresql":
                if e["sch"] not in ns:
                    oid += 1
                    ns[e["sch"]] = oid
                    c.execute("insert into pg_catalog.pg_namespace values (?,?)", (oid, e["sch"]))
                c.execute("insert into pg_catalog.pg_class values (?,?,?,'r')", (rel, e["tab"], ns[e["sch"]]))
            for i, col in enumerate(e["cols"]):
                row = info_row(sys, col, e["cat"], e["sch"], e["tab"], i + 1)
                rows.append([row[k] for k in cols])
                if sys == "postgresql":
                    oid += 1
                    typ = oid
                    if col["enums"]:
                        c.execute("insert into pg_catalog.pg_type values (?,?,'e')", (typ, col["udt"]))
                        labels = list(enumerate(col["enums"]))
                        r.shuffle(labels)             # labels may have been added later, before others
                        for k, lab in labels:
                            oid += 1
                            c.execute("insert into pg_catalog.pg_enum values (?,?,?,?)", (oid, typ, k + 1.0, lab))
                    else:
                        c.execute("insert into pg_catalog.pg_type values (?,?,'b')", (typ, row["udt_name"]))
                    c.execute("insert into pg_catalog.pg_attribute values (?,?,?,?,?,0)", (rel, col["name"], i + 1, raw(col["ndims"]), typ))
        r.shuffle(rows)
        c.executemany(f"insert into information_schema.columns values ({','.join('?' * len(cols))})", rows)

    def step(self, what):
        self.steps += 1
        if self.fail_at is not None and self.steps == self.fail_at:
            raise OperationalError(f"{what} failed")

    def connect(self, *a, **kw):
        self.step("connect")
        self.connects.append(kw if not a else {"": list(a), **kw})
        return Connection(self, len(self.connects))


class OperationalError(Exception):
    pass


class Connection:
    """A DB-API connection; leaving a with block closes it, except for psycopg2's."""

    def __init__(self, server, n):
        self.server, self.n, self.closed = server, n, 0
        server.open += 1

    def cursor(self, *a, **kw):
        self.check()
        return Cursor(self)

    def check(self):
        if self.closed:
            raise OperationalError("connection is closed")

    def close(self):
        if not self.closed:
            self.closed = 1
            self.server.open -= 1
            self.server.step("close")

    def commit(self):
        pass

    rollback = commit

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if self.server.sys != "postgresql":
            self.close()
        return None


class Cursor:
    arraysize = 1

    def __init__(self, con):
        self.con, self.description, self.rows, self.pos = con, None, [], 0

    def execute(self, sql, params=(), *a, **kw):
        s = self.con.server
        self.con.check()
        s.log.append((self.con.n, sql, params))
        s.step("execute")
        q = sql
        if isinstance(params, dict):
            q = re.sub(r"%\((\w+)\)s", r":\1", q)
        else:
            q = q.replace("%s", "?")
        q = re.sub(r"\b\w+\.(\w+)\.\*", r"\1.*", q)
        try:
            cur = s.sql.execute(q, params or ())
        except sqlite3.Error as e:
            s.unsupported = f"{e}: {sql}"
            raise Unsupported(str(e)) from e
        self.rows = [tuple(json.loads(x[len(ARR):]) if isinstance(x, str) and x.startswith(ARR) else x for x in row) for row in cur.fetchall()]
        self.description = [(d[0], None, None, None, None, None, None) for d in cur.description] if cur.description else None
        self.pos = 0
        s.last = self
        return self

    def fetchall(self):
        self.con.check()
        self.con.server.step("fetch")
        r, self.pos = self.rows[self.pos:], len(self.rows)
        return r

    def fetchone(self):
        self.con.check()
        self.con.server.step("fetch")
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return self.rows[self.pos - 1]

    def fetchmany(self, size=1):
        self.con.server.step("fetch")
        r = self.rows[self.pos:self.pos + size]
        self.pos += len(r)
        return r

    @property
    def rowcount(self):
        return len(self.rows)

    def close(self):
        pass

    def __iter__(self):
        return iter(self.fetchall())

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None


# The drivers' connect functions are replaced once, before recap is imported, so that it does not matter how recap refers to them.
_CONNECT: dict = {}


def install():
    import importlib
    if _CONNECT:
        return
    _CONNECT[""] = None
    for sys, name in (("mysql", "mysql.connector"), ("postgresql", "psycopg2"), ("snowflake", "snowflake.connector"), ("sqlite", "sqlite3")):
        m = importlib.import_module(name)

        def connect(*a, _sys=sys, _real=m.connect, **kw):
            return (_CONNECT.get(_sys) or _real)(*a, **kw)
        m.connect = connect


@contextlib.contextmanager
def driver(sys, connect):
    """Let the system's driver connect with this function."""
    install()
    old = _CONNECT.get(sys)
    _CONNECT[sys] = connect
    try:
        yield
    finally:
        _CONNECT[sys] = old

"""All supported systems at once, behind their drivers, for library, gateway and command line.

Runs inside a forked child (child.forked), before recap is imported there.  Every object has one
column or field of its own, so that an answer tells which object was read.
"""
from __future__ import annotations

import contextvars
import os
import pathlib
import threading

import bqemu
import hiveemu
import sqlemu
from checks import c18  # noqa: F401  (field descriptions)

J0 = {"t": "null", "v": ""}


def plain(s):
    """Characters outside ASCII as in URLs, which is how the specification keeps them."""
    return "".join(c if c < "\x7f" else "".join(f"%{b:02X}" for b in c.encode()) for c in s)


class Fault(Exception):
    pass


#: the kinds of failures that drivers show
FAULTS = {"Fault": Fault, "OSError": OSError, "ConnectionError": ConnectionError, "TimeoutError": TimeoutError, "KeyError": KeyError, "ValueError": ValueError, "RuntimeError": RuntimeError,
          "LookupError": LookupError, "AttributeError": AttributeError, "TypeError": TypeError, "FileNotFoundError": FileNotFoundError, "PermissionError": PermissionError,
          "NotImplementedError": NotImplementedError, "EOFError": EOFError, "UnicodeDecodeError": lambda m: UnicodeDecodeError("utf-8", b"\xff", 0, 1, m),
          "Driver": None, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit}


def driver_error(system, message):
    """The exception class of the system's own driver."""
    if system == "mysql":
        import mysql.connector
        return mysql.connector.OperationalError(message)
    if system == "postgresql":
        import psycopg2
        return psycopg2.OperationalError(message)
    if system == "snowflake":
        import snowflake.connector.errors
        return snowflake.connector.errors.OperationalError(message)
    if system == "sqlite":
        import sqlite3
        return sqlite3.OperationalError(message)
    if system == "bigquery":
        from google.api_core.exceptions import NotFound
        return NotFound(message)
    if system == "csr":
        from confluent_kafka.schema_registry.error import SchemaRegistryError
        return SchemaRegistryError(500, 50001, message)
    return Fault(message)


class World:
    """objects: {system: [[names..., column]]}; dir: scratch folder for files and SQLite databases."""

    def __init__(self, objects, dir, badcol=False):
        self.objects, self.dir = objects, str(dir)
        self.events = []              # ("connect"|"use"|"close"|"fail", connection, system)
        self.conns = []               # [system, settings]
        self.q = contextvars.ContextVar("request", default=1)
        self.count = {}               # steps per request
        self.fails = {}               # request -> number of the step that fails
        self.excs = {}                # request -> kind of its failure
        self.hook = None              # called with the request before each step
        self.badcol = badcol          # columns of a type no converter knows
        self.rich = {}                # (system, names...) -> described columns instead of one
        self.mu = threading.Lock()
        self.sql = {}
        for s in ("mysql", "postgresql", "snowflake"):
            db = []
            for names in objects.get(s, []):
                *path, col = names
                cat, sch, tab = (["def"] + path) if s == "mysql" else path
                db.append({"cat": cat, "sch": sch, "tab": tab, "cols": [self.column(s, col)]})
            self.sql[s] = db

    def column(self, s, name):
        typ = "no such type" if self.badcol else {"mysql": "int", "postgresql": "integer", "snowflake": "FLOAT"}[s]
        return {"name": name, "type": typ, "def": J0, "null": True, "maxlen": J0, "octets": J0, "prec": J0, "scale": J0, "dtprec": J0,
                "udt": "", "enums": [], "ndims": {"t": "int", "v": "0"}}

    # -- bookkeeping --------------------------------------------------------------
    def step(self, what, conn, system):
        """One interaction with a driver; may be made to wait or to fail."""
        q = self.q.get()
        if self.hook:
            self.hook(q)
        with self.mu:
            self.count[q] = self.count.get(q, 0) + 1
            fail = self.fails.get(q) == self.count[q]
            self.events.append({"ev": ("fail " if fail else "") + what, "q": q, "c": conn, "ok": False})
        if fail:
            kind = self.excs.get(q, "Fault")
            raise driver_error(system, f"{what} fails") if kind == "Driver" else FAULTS[kind](f"{what} fails")

    def tidy(self):
        """Rolling back and the like, which a broken connection cannot do."""
        if 0 < self.fails.get(self.q.get(), 0) <= self.count.get(self.q.get(), 0):
            raise Fault("the connection is broken")

    def connected(self, system, settings):
        """A connection attempt (which may fail) and, if it succeeds, its number."""
        with self.mu:
            n = len(self.conns) + 1
            self.conns.append({"sys": system, "set": {k: str(v) if k in ("database", "dbname", "url") else plain(str(v)) for k, v in settings.items() if v is not None and v != ""}})
        self.step("connect", n, system)
        return n

    def closed(self, n, system):
        self.step("close", n, system)

    def ended(self, q, ok, fault=False):
        with self.mu:
            if fault:
                self.events.append({"ev": "fault", "q": q, "c": 0, "ok": False})
            self.events.append({"ev": "end", "q": q, "c": 0, "ok": ok})

    def fresh(self, fails=None, hook=None, excs=None):
        """Forget what happened so far."""
        self.events, self.conns, self.count = [], [], {}
        self.fails, self.hook, self.excs = dict(fails or {}), hook, dict(excs or {})

    # -- installing ---------------------------------------------------------------
    def install(self):
        import mysql.connector
        import psycopg2
        import psycopg2.extensions
        import snowflake.connector
        import sqlite3
        import confluent_kafka.schema_registry as csr
        from google.cloud import bigquery
        from mysql.connector.constants import DEFAULT_CONFIGURATION
        from pymetastore.metastore import HMS
        w = self
        self.real_sqlite = sqlite3.connect

        def my(*a, **kw):
            for k in kw:
                if k not in DEFAULT_CONFIGURATION:
                    raise AttributeError(f"Unsupported argument '{k}'")
            for alias, name in (("db", "database"), ("passwd", "password"), ("connect_timeout", "connection_timeout")):
                if alias in kw:
                    kw.setdefault(name, kw[alias])
                    del kw[alias]
            if "port" in kw:
                kw["port"] = int(kw["port"])          # the connector fails on None, too
            return Connection(w, "mysql", kw)
        mysql.connector.connect = my

        def pg(dsn=None, *a, **kw):
            return Connection(w, "postgresql", psycopg2.extensions.parse_dsn(psycopg2.extensions.make_dsn(dsn, **{k: v for k, v in kw.items() if k != "connection_factory"})))
        psycopg2.connect = pg

        def snow(*a, **kw):
            if "port" in kw:
                kw["port"] = int(kw["port"])
            return Connection(w, "snowflake", kw)
        snowflake.connector.connect = snow

        def lite(database, *a, **kw):
            return Lite(w, database, a, kw)
        sqlite3.connect = lite

        class BQ:
            def __new__(cls, *a, **kw):
                return BigQuery(w, {str(i): x for i, x in enumerate(a)} | kw)
        bigquery.Client = BQ
        HMS.create = staticmethod(lambda host="localhost", port=9083: Hive(w, host, port))

        class SR(Registry):
            def __init__(self, conf):
                super().__init__(w, conf)
        csr.SchemaRegistryClient = SR
        return self

    def children(self, system, *names):
        out = []
        for o in self.objects.get(system, []):
            if o[:len(names)] == list(names) and len(o) > len(names) + 1 and o[len(names)] not in out:
                out.append(o[len(names)])
        return out

    def column_of(self, system, *names):
        for o in self.objects.get(system, []):
            if o[:-1] == list(names):
                return o[-1]
        raise LookupError(names)


class Connection(sqlemu.Connection):
    def __init__(self, w, system, settings):
        self.w, self.system = w, system
        self.k = w.connected(system, settings)
        if not isinstance(w.sql[system], sqlemu.Server):
            w.sql[system] = sqlemu.Server(system, w.sql[system])
            w.sql[system].step = lambda what: None
        super().__init__(w.sql[system], self.k)

    def close(self):
        if not self.closed:
            super().close()
            self.w.closed(self.k, self.system)

    def commit(self):
        self.check()
        self.w.tidy()

    rollback = commit

    def cursor(self, *a, **kw):
        self.check()
        self.w.step("use", self.k, self.system)
        return SqlCursor(self)


class SqlCursor(sqlemu.Cursor):
    def execute(self, *a, **kw):
        self.con.w.step("use", self.con.k, self.con.system)
        return super().execute(*a, **kw)

    def fetchall(self):
        self.con.w.step("use", self.con.k, self.con.system)
        return super().fetchall()

    def fetchone(self):
        self.con.w.step("use", self.con.k, self.con.system)
        return super().fetchone()


class Lite:
    """A real SQLite connection, counted."""

    def __init__(self, w, database, a, kw):
        s = {"database": database}
        if "timeout" in kw:
            s["timeout"] = f"{float(kw['timeout']):g}"
        if "check_same_thread" in kw:
            s["check_same_thread"] = "on" if kw["check_same_thread"] else "off"
        for k in ("detect_types", "isolation_level", "cached_statements"):
            if k in kw:
                s[k] = str(kw[k])
        self._w, self._k = w, w.connected("sqlite", s)
        self._c = w.real_sqlite(database, *a, **kw)
        self._open = True

    def cursor(self, *a, **kw):
        self._w.step("use", self._k, "sqlite")
        return LiteCursor(self, self._c.cursor(*a, **kw))

    def execute(self, *a, **kw):
        return self.cursor().execute(*a, **kw)

    def close(self):
        if self._open:
            self._open = False
            self._c.close()
            self._w.closed(self._k, "sqlite")

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None                    # as sqlite3's: the connection stays open

    def commit(self):
        self._w.tidy()
        self._c.commit()

    def rollback(self):
        self._w.tidy()
        self._c.rollback()


class LiteCursor:
    def __init__(self, con, cur):
        self._con, self._cur = con, cur

    def execute(self, *a):
        self._con._w.step("use", self._con._k, "sqlite")
        self._cur.execute(*a)
        return self

    def fetchall(self):
        self._con._w.step("use", self._con._k, "sqlite")
        return self._cur.fetchall()

    def fetchone(self):
        self._con._w.step("use", self._con._k, "sqlite")
        return self._cur.fetchone()

    def __iter__(self):
        return iter(self.fetchall())

    def __getattr__(self, n):
        return getattr(self._cur, n)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self._cur.close()


class BigQuery:
    def __init__(self, w, kw):
        self.w, self.k = w, w.connected("bigquery", {k: v for k, v in kw.items()})
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.w.closed(self.k, "bigquery")

    def use(self):
        if self.closed:
            raise RuntimeError("closed")
        self.w.step("use", self.k, "bigquery")

    def list_projects(self, *a, **k):
        self.use()
        return iter([bqemu._Named(project_id=p) for p in self.w.children("bigquery")])

    def list_datasets(self, project=None, *a, **k):
        self.use()
        return iter([bqemu._Named(dataset_id=d) for d in self.w.children("bigquery", project)])

    def dataset(self, dataset_id, project=None):
        from google.cloud import bigquery
        return bigquery.DatasetReference(project, dataset_id)

    _ref = bqemu.Client._ref

    def list_tables(self, ref, *a, **k):
        self.use()
        return iter([bqemu._Named(table_id=t) for t in self.w.children("bigquery", *self._ref(ref))])

    def get_table(self, ref, *a, **k):
        from google.cloud import bigquery
        p, d, t = self._ref(ref)
        self.use()
        fs = self.w.rich.get(("bigquery", p, d, t))
        if fs is not None:
            fs = [bqemu.api(f) for f in fs]
        else:
            fs = [{"name": self.w.column_of("bigquery", p, d, t), "type": "NO SUCH TYPE" if self.w.badcol else "INT64", "mode": "NULLABLE"}]
        return bigquery.Table.from_api_repr({"tableReference": {"projectId": p, "datasetId": d, "tableId": t}, "schema": {"fields": fs}})


class Hive(hiveemu.Server):
    """The metastore and a connection to it."""

    def __init__(self, w, host, port):
        tables = {}
        for d, t, c in w.objects.get("hive", []):
            tables.setdefault(d, {})[t] = [{"name": c, "comment": "", "type": {"h": "bogus" if w.badcol else "int", "n": [], "names": [], "c": []},
                                            "stats": {"kind": "long", "v": {"lowValue": {"t": "int", "v": "1"}, "highValue": {"t": "int", "v": "9"},
                                                                            "numDVs": {"t": "int", "v": "3"}, "numNulls": {"t": "int", "v": "0"}}}}]
        for k, cols in w.rich.items():
            if k[0] == "hive":
                tables.setdefault(k[1], {})[k[2]] = cols
        super().__init__(tables)
        self.w, self.settings = w, {"host": host, "port": port}
        self.k, self.is_open = 0, False

    def step(self, *what):
        self.w.step("use", self.k, "hive")

    def __enter__(self):
        if not isinstance(self.settings["port"], int):
            raise TypeError("port must be a number")
        self.k = self.w.connected("hive", self.settings)
        self.is_open = True
        return self.hms()

    open = property(lambda self: self.__enter__, lambda self, v: None)

    def __exit__(self, *exc):
        self.close()

    def close(self):
        if self.is_open:
            self.is_open = False
            self.w.closed(self.k, "hive")


class Registry:
    """confluent_kafka's client for the schema registry."""

    def __init__(self, w, conf):
        conf = dict(conf)
        for k in conf:
            if k not in ("url", "ssl.ca.location", "ssl.key.location", "ssl.certificate.location", "basic.auth.user.info"):
                raise ValueError("Unrecognized properties: " + k)
        if not conf.get("url", "").startswith(("http://", "https://")):
            raise ValueError("Invalid url")
        self._w = w
        self._k = w.connected("csr", conf)
        self._open = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if self._open:
            self._open = False
            self._w.closed(self._k, "csr")

    def _use(self):
        self._w.step("use", self._k, "csr")

    def get_subjects(self):
        self._use()
        return [s for s, _, _, _ in self._w.objects.get("csr", [])]

    def get_latest_version(self, subject_name, *a, **k):
        subject = subject_name
        self._use()
        for s, kind, text, _ in self._w.objects.get("csr", []):
            if s == subject:
                return bqemu._Named(schema=bqemu._Named(schema_str=text, schema_type=kind), subject=s, version=1, schema_id=1)
        raise LookupError(subject)


def files(dir, tree):
    """{path: text}; names ending in .sqlite are made from {table: column}."""
    import sqlite3
    for p, v in tree.items():
        f = pathlib.Path(dir) / p.lstrip("/")
        f.parent.mkdir(parents=True, exist_ok=True)
        if isinstance(v, dict):
            c = sqlite3.connect(f)
            for t, col in v.items():
                c.execute('create table "%s" ("%s" INTEGER)' % (t, col))
            c.commit()
            c.close()
        else:
            f.write_text(v)


def answer(fn, *args):
    """What a call gives: names of children, or of a struct's fields."""
    from vlib import call
    st, v = call(fn, *args)
    if st != "ok":
        return {"st": st, "names": [], "stats": False, "why": repr(v)[:300]}
    return {"st": "ok", **names_of(v)}


def names_of(v):
    if isinstance(v, dict):
        fs = v.get("fields") or []
        return {"names": [str(f.get("name")) for f in fs if isinstance(f, dict)], "stats": any("cardinality" in f for f in fs if isinstance(f, dict))}
    if isinstance(v, list):
        return {"names": [str(x) for x in v], "stats": False}
    return {"names": ["?" + repr(v)], "stats": False}

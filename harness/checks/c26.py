"""C26: names of catalogs, schemas and tables as values."""
import contextlib
import pathlib
import tempfile

import enc
import sqlemu
import sqlgen
from checks import c16, c17
from vlib import call


def dump(con):
    out = []
    for s in ("main", "information_schema", "pg_catalog"):
        with contextlib.suppress(Exception):
            for (n,) in con.execute(f"select name from {s}.sqlite_master order by name").fetchall():
                out.append((s, n, sorted(map(repr, con.execute(f'select * from {s}."{n}"').fetchall()))))
    return out


def make_db(sys, r):
    cats = ["def"] if sys == "mysql" else ["c"] if sys == "sqlite" else r.sample(["c", "c2", "it's", "C", "%s", "\"c\"", " c", "c "], r.randint(1, 2))
    db = []
    for cat in cats:
        for sch in (["s"] if sys == "sqlite" else r.sample(sqlgen.SCHEMAS, r.randint(1, 3))):
            tabs = r.sample(sqlgen.TABLES, r.randint(1, 5))
            if sys == "sqlite":
                low = set()
                tabs = [t for t in tabs if not (t.lower() in low or low.add(t.lower()))]
            for t in tabs:
                cols = []
                for k in range(r.randint(1, 3)):
                    c = sqlgen.mk(type="integer" if sys != "snowflake" else "boolean", null=True)
                    c["name"] = f"c{len(db)}_{k}"
                    cols.append(c)
                db.append({"cat": cat, "sch": sch, "tab": t, "cols": cols})
    return db


PLAIN = [{"cat": "c", "sch": "s", "tab": "t", "cols": [sqlgen.mk(type="integer", name="x")]}]


def method(sys, call_, args):
    if call_ == "schema":
        return "schema", c16.table_args(sys, *args)
    if sys == "mysql":
        return "ls", {"schemas": (), "tables": (args[1],)}[call_] if call_ != "schemas" else ()
    if sys == "sqlite":
        return "ls", ()
    return "ls", {"catalogs": (), "schemas": args[:1], "tables": args[:2]}[call_]


def do(sys, server, path, call_, args):
    with contextlib.ExitStack() as st:
        if server:
            st.enter_context(sqlemu.driver(sys, server.connect))
        cl = st.enter_context(c16.client_class(sys).create(**c16.client_args(sys, path)))
        if server:
            server.log.clear()
        name, a = method(sys, call_, args)
        return call(getattr(cl, name), *a)


def reference(sys, call_, there):
    """Statements sent for the same call with plain names."""
    if sys == "sqlite":
        return []
    db = [{**PLAIN[0], "cat": "def" if sys == "mysql" else "c"}]
    if not there:
        db[0]["tab"] = "other"
    server = sqlemu.Server(sys, db)
    do(sys, server, None, call_, (db[0]["cat"], "s", "t"))
    return [s for _, s, _ in server.log]


def observe(sys, db, calls, scratch, refs, seed):
    out, skipped = [], None
    server = path = None
    if sys == "sqlite":
        path = pathlib.Path(tempfile.mkdtemp(dir=scratch)) / "x.db"
        con = c17.sqlite_db({e["tab"]: e["cols"] for e in db}, str(path))
    else:
        server = sqlemu.Server(sys, db, seed)
        con = server.sql
    before = dump(con)
    for call_, args in calls:
        there = any((e["cat"], e["sch"], e["tab"]) == tuple(args) for e in db)
        st, v = do(sys, server, path, call_, args)
        if server and server.unsupported:
            skipped = server.unsupported
            break
        rec = {"op": "query", "sys": sys, "db": db, "call": call_, "args": list(args), "st": st, "t": enc.T("null"), "names": [], "reported": [],
               "texts": [], "texts0": [], "changed": dump(con) != before}
        if st == "ok" and call_ == "schema":
            rec["t"] = enc.t(v)
        elif st == "ok":
            rec["names"] = rec["reported"] = [str(x) for x in v]
            if server:
                cur = server.last
                if cur is not None and cur.description and len(cur.description) == 1:
                    rec["reported"] = [str(x[0]) for x in cur.rows]
            else:
                rec["reported"] = [x[0] for x in con.execute("select name from sqlite_master where type='table'")]
        if server:
            key = (sys, call_, there or call_ != "schema")
            if key not in refs:
                refs[key] = reference(*key)
            rec["texts"] = [s for _, s, _ in server.log]
            rec["texts0"] = refs[key]
        out.append(rec)
    con.close()
    return out, skipped


def run(ctx):
    sqlemu.install()
    r = ctx.rng
    recs, skipped, refs = [], {}, {}
    if ctx.replay:
        x = ctx.replay["record"]
        recs = observe(x["sys"], x["db"], [(x["call"], x["args"])], ctx.work, refs, 0)[0]
        ctx.judge("Trace_Sql", recs)
        return
    for _ in range(60 if ctx.quick else 2000):
        for sys in ("mysql", "postgresql", "snowflake", "sqlite"):
            db = make_db(sys, r)
            calls = []
            for e in db:
                calls.append(("schema", (e["cat"], e["sch"], e["tab"])))
            for _ in range(5):
                e = r.choice(db)
                calls.append(("schema", (e["cat"] if sys in ("mysql", "sqlite") else r.choice([e["cat"], "nocat", "c"]),
                                         e["sch"] if sys == "sqlite" else r.choice([e["sch"]] + sqlgen.SCHEMAS), r.choice(sqlgen.TABLES))))
                calls.append(("tables", (e["cat"], e["sch"], "")))
            if sys != "sqlite":
                calls.append(("schemas", (r.choice(db)["cat"], "", "")))
            if sys in ("postgresql", "snowflake"):
                calls.append(("catalogs", ("", "", "")))
            r.shuffle(calls)
            out, skip = observe(sys, db, calls, ctx.work, refs, r.random())
            recs += out
            if skip:
                skipped[sys] = skip
    ctx.extra["statements_not_executable_here"] = skipped
    ctx.assumptions.append("MySQL, PostgreSQL and Snowflake metadata is served by SQLite behind the drivers' connect functions")
    for x in recs[-2:]:
        ctx.sample({k: x[k] for k in ("sys", "call", "args", "st", "texts")})
    ctx.judge("Trace_Sql", recs)

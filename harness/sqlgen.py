"""Columns and tables of the four SQL systems, as the specification describes them."""
from __future__ import annotations

from enc import j

Z = {"name": "", "type": "", "null": False, "def": j(None), "octets": j(None), "maxlen": j(None), "prec": j(None), "scale": j(None),
     "dtprec": j(None), "udt": "", "ndims": j(0), "enums": []}
NAMES = ["id", "name", "a.b", "a_b", "with space", "Quote\"d", "sel'ect", "ünï", "default", "x;y", "%s", "?", "UPPER", "a.b.c", "a_b.c", "a.b_c", "日本", "1st", "-", "null", " lead", "trail ", "a b", "ID", "\"q\"", "'s'", "x" * 120]
TABLES = ["t", "users", "my table", "Quote\"d", "it's", "select", "a.b", "t); DROP TABLE t; --", "' OR '1'='1", "%s", "?", ":x", "ü", "UsErs", "x%", "_", "t\\", "1t", "a b; c", "[t]", "`t`",
          "main.t", "%(a)s", "é日", "--", "/*", "tab\tle", "{t}", "\"t\"", "'t'", " t", "t ", "T"]
SCHEMAS = ["public", "s", "My Schema", "it's", "a\"b", "%", "x.y", "S", "\"s\"", "'s'", " s", "s "]


def mk(**kw):
    return {**Z, **{k: (j(v) if k in ("def", "octets", "maxlen", "prec", "scale", "dtprec", "ndims") else v) for k, v in kw.items()}}


def case(r, s):
    return r.choice([s, s, s.upper(), s.lower(), s.capitalize(), "".join(r.choice([c.upper(), c.lower()]) for c in s)])


def sqlite_type(r):
    """A declared type: the words that SQLite's affinity rules look for, inside others."""
    words = r.sample(["INT", "CHAR", "CLOB", "TEXT", "BLOB", "REAL", "FLOA", "DOUB", "NUM", "BER", "X", "DATE", "VAR", "T", "POINT", "UNSIGNED", "BIG", "_"], r.randint(1, 3))
    t = r.choice(["", " ", "_"]).join(words)
    if t.upper().startswith(("AS", "_")):
        t = "Q" + t
    if r.random() < 0.5:
        t += r.choice(["", " "]) + "(" + str(r.choice([0, 1, 5, 22, 23, 24, 64, 255, 65536, 2**31 - 1, 2**31, 10**20])) + r.choice(["", "", ",2", ", 10"]) + ")"
    return t


def column(sys, r, documented=True):
    c = one(sys, r)
    c["type"] = case(r, c["type"])
    return c


def one(sys, r):
    big = [1, 2, 3, 4, 10, 100, 255, 256, 1020, 65535, 65536, 16777215, 16777216, 2**31 - 1]
    if sys == "sqlite":
        return mk(type=sqlite_type(r) if r.random() < 0.9 else "")
    if sys == "mysql":
        k = r.random()
        if k < 0.3:
            return mk(type=r.choice(["bigint", "int", "integer", "mediumint", "smallint", "tinyint", "double", "year"]), prec=r.choice([None, 3, 10, 19]), scale=r.choice([None, 0]))
        if k < 0.4:
            return mk(type="float", prec=r.randint(1, 53))
        if k < 0.65:
            o = r.choice(big + [4294967295, 0])
            return mk(type=r.choice(["varchar", "char", "enum", "set", "text", "tinytext", "mediumtext", "longtext", "binary", "varbinary", "blob", "tinyblob", "mediumblob", "longblob"]),
                      octets=o, maxlen=max(1, o // 4))
        if k < 0.7:
            return mk(type="json")
        if k < 0.75:
            return mk(type="bit", prec=r.randint(1, 64))
        if k < 0.88:
            return mk(type=r.choice(["timestamp", "datetime"]), dtprec=r.randint(0, 6))
        return mk(type=r.choice(["dec", "decimal", "numeric"]), prec=r.randint(1, 65), scale=r.randint(0, 30))
    if sys == "postgresql":
        k = r.random()
        if k < 0.25:
            return mk(type=r.choice(["bigint", "int8", "bigserial", "serial8", "integer", "int", "int4", "serial", "serial4", "smallint", "smallserial", "serial2", "int2",
                                     "double precision", "float8", "real", "float4", "boolean", "bool", "uuid", "bytea", "json", "jsonb"]), prec=r.choice([None, 16, 32, 64]))
        if k < 0.4:
            o = r.choice(big)
            return mk(type=r.choice(["character varying", "varchar", "character", "char", "text", "character varying(7)", "char(5)"]), octets=o, maxlen=max(1, o // 4))
        if k < 0.5:
            return mk(type=r.choice(["bit", "bit varying"]), maxlen=r.choice([1, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 1000, 83886080]))
        if k < 0.6:
            return mk(type=r.choice(["timestamp", "timestamp without time zone", "timestamp with time zone"]), dtprec=r.randint(0, 6))
        if k < 0.7:
            return mk(type=r.choice(["numeric", "decimal"]), prec=r.choice([1, 10, 38, 1000]), scale=r.choice([0, 2, 999]))
        if k < 0.78:
            return mk(type="USER-DEFINED", udt="mood", enums=r.sample(["sad", "ok", "happy", "Z z", "a", "é", "b'c", ""], r.randint(1, 5)))
        return mk(type="ARRAY", ndims=r.randint(1, 5), udt=r.choice(["_int2", "_int4", "_int8", "_float4", "_float8", "_text", "_varchar", "_bool", "_uuid", "_json", "_jsonb",
                                                                    "_bytea", "_bit", "_numeric", "_timestamp", "_timestamptz"]))
    k = r.random()
    if k < 0.2:
        return mk(type=r.choice(["float", "float4", "float8", "double", "double precision", "real", "boolean", "date"]))
    if k < 0.4:
        return mk(type=r.choice(["number", "decimal", "numeric", "int", "integer", "bigint", "smallint", "tinyint", "byteint", "number(10,2)", "decimal(5)", "numeric(38, 37)"]),
                  prec=r.choice([None, 1, 10, 37, 38]), scale=r.choice([None, 0, 2, 37]))
    if k < 0.65:
        o = r.choice([None] + big)
        t = r.choice(["varchar", "string", "text", "nvarchar", "nvarchar2", "char varying", "nchar varying", "char", "nchar", "character", "binary", "varbinary", "blob"])
        return mk(type=t + (r.choice(["", "", "(7)"]) if "b" not in t else ""), octets=o, maxlen=o)
    return mk(type=r.choice(["timestamp", "timestamp_ltz", "timestamp_ntz", "timestamp_tz", "datetime", "time"]) + r.choice(["", "(0)", "(1)", "(2)", "(3)", "(4)", "(5)", "(6)", "(7)", "(8)", "(9)", "( 3 )", " (6)", "(9 )"]))


UNKNOWN = {"mysql": ["geometry", "point", "linestring", "polygon", "multipoint", "geometrycollection", "foo", "vector", "", "in", "intt", "bigin", "doubles"],
           "postgresql": ["interval", "money", "inet", "cidr", "macaddr", "xml", "point", "line", "tsvector", "tsquery", "oid", "regclass", "USER-DEFINED", "foo", "", "\"char\"", "name",
                          "int4range", "anyarray", "texts", "uuids", "jsonpath", "pg_lsn"],
           "snowflake": ["variant", "object", "array", "geography", "geometry", "vector", "foo", "", "floats", "bool", "dates", "blobs", "map"]}
UNKNOWN_UDT = ["_inet", "_mood", "_interval", "_money", "_bitmask", "_charclass", "_timestamps", "_numerics", "_decimals", "_varchars", "_point", "_xml"]


def table(sys, r, n=None):
    n = (r.randint(0, 6) if r.random() < 0.96 else r.choice([12, 25, 60])) if n is None else n
    names = r.sample(NAMES + ["col%d" % i for i in range(n if n > 6 else 0)], n)
    cols = []
    seen = set()
    for nm in names:
        if sys == "sqlite" and nm.lower() in seen:
            continue
        seen.add(nm.lower())
        c = column(sys, r)
        c["name"] = nm
        c["null"] = r.random() < 0.5
        if r.random() < 0.4:
            c["def"] = j(r.choice(["0", "", "x", "NULL", "'a'", "nextval('s'::regclass)", "CURRENT_TIMESTAMP", "false", "ü"]))
        cols.append(c)
    return cols

"""A stand-in for the Thrift connection below pymetastore, which itself runs for real."""
import contextlib

import enc


def text(h):
    n = h["h"]
    if n in ("decimal", "varchar", "char"):
        return f"{n}({','.join(h['n'])})"
    if n == "struct":
        return "struct<" + ",".join(f"{k}:{text(c)}" for k, c in zip(h["names"], h["c"])) + ">"
    if h["c"] or n == "uniontype":
        return n + "<" + ",".join(text(c) for c in h["c"]) + ">"
    return n


def thrift_stats(s):
    from pymetastore.hive_metastore import ttypes as T
    v = {k: enc.unj(x) for k, x in s["v"].items()}
    if s["kind"] == "date":
        v = {k: (T.Date(daysSinceEpoch=x) if k in ("lowValue", "highValue") and x is not None else x) for k, x in v.items()}
    if s["kind"] == "decimal":
        v = {k: (T.Decimal(scale=x["scale"], unscaled=bytes.fromhex(x["hex"])) if k in ("lowValue", "highValue") and x is not None else x) for k, x in v.items()}
    cls = {"long": T.LongColumnStatsData, "double": T.DoubleColumnStatsData, "string": T.StringColumnStatsData, "boolean": T.BooleanColumnStatsData,
           "binary": T.BinaryColumnStatsData, "decimal": T.DecimalColumnStatsData, "date": T.DateColumnStatsData}[s["kind"]]
    return T.ColumnStatisticsData(**{s["kind"] + "Stats": cls(**v)})


class Server:
    """tables: {database: {table: columns}}"""

    def __init__(self, tables):
        self.tables = tables
        self.open = 0
        self.connects = []
        self.log = []
        self.fail_at = None
        self.steps = 0
        self.stats_calls = 0

    def step(self, *what):
        self.steps += 1
        self.log.append(what)
        if self.fail_at == self.steps:
            raise RuntimeError(f"injected failure at {what}")

    # the metastore's Thrift interface
    def get_all_databases(self):
        self.step("get_all_databases")
        return list(self.tables)

    get_databases = lambda self, pattern="*": self.get_all_databases()

    def get_all_tables(self, db):
        self.step("get_all_tables", db)
        return list(self.tables[db])

    def get_table(self, db, tab):
        from pymetastore.hive_metastore import ttypes as T
        self.step("get_table", db, tab)
        if db not in self.tables or tab not in self.tables[db]:
            raise T.NoSuchObjectException(message=f"{db}.{tab}")
        cols = [T.FieldSchema(name=c["name"], type=text(c["type"]), comment=c["comment"] or None) for c in self.tables[db][tab]]
        sd = T.StorageDescriptor(cols=cols, location="/x", inputFormat="i", outputFormat="o", compressed=False, numBuckets=0,
                                 serdeInfo=T.SerDeInfo(name="s", serializationLib="l", parameters={}), bucketCols=[], sortCols=[], parameters={})
        return T.Table(tableName=tab, dbName=db, owner="o", createTime=1, lastAccessTime=1, retention=0, sd=sd, partitionKeys=[], parameters={}, tableType="MANAGED_TABLE")

    def get_table_column_statistics(self, db, tab, col):
        from pymetastore.hive_metastore import ttypes as T
        self.step("get_table_column_statistics", db, tab, col)
        self.stats_calls += 1
        objs = []
        for c in self.tables[db][tab]:
            if c["name"] == col:
                kind = c["stats"]["kind"]
                if kind == "unknown":          # reported, of a kind the library does not know
                    objs.append(T.ColumnStatisticsObj(colName=col, colType=text(c["type"]), statsData=T.ColumnStatisticsData()))
                elif kind != "none":
                    objs.append(T.ColumnStatisticsObj(colName=col, colType=text(c["type"]), statsData=thrift_stats(c["stats"])))
        return T.ColumnStatistics(statsDesc=T.ColumnStatisticsDesc(isTblLevel=True, dbName=db, tableName=tab), statsObj=objs)

    def hms(self):
        from pymetastore.metastore import HMS
        return HMS(self)

    @contextlib.contextmanager
    def installed(self):
        """HMS.create connects here."""
        from pymetastore.metastore import HMS
        srv, real = self, HMS.__dict__["create"]

        class Connection:
            def __init__(self, host, port):
                self.host, self.port = host, port
                self.is_open = False

            def __enter__(self):
                srv.connects.append((self.host, self.port))
                srv.step("connect")
                srv.open += 1
                self.is_open = True
                return srv.hms()

            def __exit__(self, *exc):
                if self.is_open:
                    self.is_open = False
                    srv.open -= 1
                    srv.log.append(("close",))
        HMS.create = staticmethod(lambda host="localhost", port=9083: Connection(host, port))
        try:
            yield self
        finally:
            HMS.create = real

"""A stand-in for google.cloud.bigquery.Client that answers from described tables."""
import contextlib

import enc


def api(f):
    """The REST description of a field."""
    d = {"name": f["name"], "type": f["type"], "mode": f["mode"]}
    for k, n in (("desc", "description"), ("def", "defaultValueExpression"), ("maxlen", "maxLength"), ("prec", "precision"), ("scale", "scale")):
        v = enc.unj(f[k])
        if v is not None:
            d[n] = str(v) if k in ("maxlen", "prec", "scale") else v
    if f["fields"]:
        d["fields"] = [api(x) for x in f["fields"]]
    return d


def schema_field(f):
    from google.cloud import bigquery
    u = enc.unj
    return bigquery.SchemaField(f["name"], f["type"], mode=f["mode"], description=u(f["desc"]), default_value_expression=u(f["def"]),
                                max_length=u(f["maxlen"]), precision=u(f["prec"]), scale=u(f["scale"]), fields=tuple(schema_field(x) for x in f["fields"]))


class _Named:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Server:
    """projects: {project: {dataset: {table: fields}}}"""

    def __init__(self, projects):
        self.projects = projects
        self.open = 0
        self.connects = []
        self.log = []
        self.fail_at = None
        self.steps = 0

    def step(self, what):
        self.steps += 1
        self.log.append(what)
        if self.fail_at == self.steps:
            raise RuntimeError(f"injected failure at {what}")

    def make(self, *args, **kw):
        self.connects.append((args, kw))
        self.step(("connect",))
        self.open += 1
        return Client(self)

    @contextlib.contextmanager
    def installed(self):
        install()
        _CURRENT.append(self)
        try:
            yield self
        finally:
            _CURRENT.pop()


_CURRENT: list = []


def install():
    """Replace the client class once, before recap is imported, so that it does not matter how recap refers to it."""
    from google.cloud import bigquery
    if _CURRENT:
        return
    real = bigquery.Client

    class Fake:
        def __new__(cls, *a, **k):
            return (_CURRENT[-1].make if _CURRENT[-1] else real)(*a, **k)
    bigquery.Client = Fake
    _CURRENT.append(None)


class Client:
    def __init__(self, srv):
        self.srv, self.closed = srv, False

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            self.srv.open -= 1
            self.srv.log.append(("close",))

    def _use(self, *what):
        if self.closed:
            raise RuntimeError("client is closed")
        self.srv.step(what)

    def list_projects(self, *a, **k):
        self._use("list_projects")
        return iter([_Named(project_id=p) for p in self.srv.projects])

    def list_datasets(self, project=None, *a, **k):
        self._use("list_datasets", project)
        if project not in self.srv.projects:
            raise LookupError(project)
        return iter([_Named(dataset_id=d, project=project) for d in self.srv.projects[project]])

    def dataset(self, dataset_id, project=None):
        from google.cloud import bigquery
        return bigquery.DatasetReference(project or "default-project", dataset_id)

    def _ref(self, ref):
        if isinstance(ref, str):
            parts = ref.split(".")
            return parts
        if hasattr(ref, "table_id"):
            return [ref.project, ref.dataset_id, ref.table_id]
        return [ref.project, ref.dataset_id]

    def list_tables(self, ref, *a, **k):
        p, d = self._ref(ref)
        self._use("list_tables", p, d)
        return iter([_Named(table_id=t, dataset_id=d, project=p) for t in self.srv.projects[p][d]])

    def get_table(self, ref, *a, **k):
        from google.cloud import bigquery
        p, d, t = self._ref(ref)
        self._use("get_table", p, d, t)
        fields = self.srv.projects[p][d][t]
        return bigquery.Table.from_api_repr({"tableReference": {"projectId": p, "datasetId": d, "tableId": t}, "schema": {"fields": [api(f) for f in fields]}})

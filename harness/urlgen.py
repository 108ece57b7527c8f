"""Random URLs whose text is the same before and after normalisation of percent escapes."""
import urllib.parse as up

SCHEMES = ["postgresql", "mysql", "snowflake", "http+csr", "https+csr", "thrift+hms", "bigquery", "sqlite", "file", "s3", "gs", "http", "https"]
WORDS = ["a", "b", "ab", "db", "public", "x_y", "x-y", "A", "a.b", "a%20b", "%C3%BC", "a:b", "a@b", "b;c", "a+b", "~x", "a,b", "%2F", "x.json", "...", "db.db", "http", "thrift", "x+csr", "mysql"]
SECRETS = ["u", "p", "user", "p@ss", "p:w", "a/b", "a?b", "a#b", "%", "p%40", "ü", "日本", " ", "a b", "x" * 40, "[::1]", "@", "://", "&=", "\\", "'\"", "+", "h", "db", "a+b", "p+w", "mysql", "http"]
HOSTS = ["h", "host", "HOST", "Host.example.com", "10.0.0.1", "[::1]", "[2001:db8::2]", "a-b.c", "localhost", "xn--bcher-kva.example", "thrift.x", "http", "csr-1.https.example", "my.mysql-db"]
PORTS = ["", "", "1", "5432", "3306", "8081", "65535", "54"]
KEYS = ["k", "sslmode", "a b", "warehouse", "host", "user", "password", "ü", "k.x", "k&"]
VALUES = ["1", "2", "a b", "x&y", "a=b", "#", "p@ss", "ü", "+", "%", "/x/y", "1,2"]


def secret(s):
    return up.quote(s, safe="+" if s in ("a+b", "p+w") else "")


def query(r):
    n = r.choice([0, 0, 1, 1, 2, 3])
    return "&".join(up.quote(r.choice(KEYS), safe=".") + "=" + up.quote(r.choice(VALUES), safe=",/") for _ in range(n))


def path(r, scheme, dots=False):
    n = r.choice([0, 1, 1, 2, 2, 3])
    ws = [r.choice(WORDS) for _ in range(n)]
    if dots and r.random() < .2:
        ws.insert(r.randint(0, len(ws)), r.choice(["..", ".", ".."]))
    p = "".join("/" + w for w in ws)
    if r.random() < .15:
        p += "/" * r.choice([1, 1, 2])
    if scheme == "sqlite" and p.strip("/") and r.random() < .4:
        p = "/" + p
    return p


def url(r, scheme=None, auth=True, dots=False):
    s = scheme or r.choice(SCHEMES)
    host = "" if s in ("sqlite", "file") or (s == "bigquery" and r.random() < .6) else r.choice(HOSTS)
    ui, port = "", ""
    if host:
        port = r.choice(PORTS)
        x = r.random() if auth else 1
        if x < .45:
            ui = secret(r.choice(SECRETS)) + ":" + secret(r.choice(SECRETS)) + "@"
        elif x < .55:
            ui = secret(r.choice(SECRETS)) + "@"
        elif x < .62:
            ui = ":" + secret(r.choice(SECRETS)) + "@"
    q = query(r)
    f = r.choice(["", "", "", "f", "frag%20x"])
    return f"{s}://{ui}{host}{':' + port if port else ''}{path(r, s, dots)}{'?' + q if q else ''}{'#' + f if f else ''}"

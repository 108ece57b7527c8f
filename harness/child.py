"""Runs a function in a forked child with its own environment, and a bare ASGI client."""
from __future__ import annotations

import asyncio
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

from vlib import MachineryError


def _start(fn, args, env):
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            for k, v in (env or {}).items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            try:
                out = ("ok", fn(*args))
            except BaseException:  # noqa: BLE001
                out = ("fail", traceback.format_exc())
            with os.fdopen(w, "wb") as fh:
                pickle.dump(out, fh)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def _result(data):
    if not data:
        raise MachineryError("a child process died")
    st, v = pickle.loads(data)
    if st == "fail":
        raise MachineryError("in a child process:\n" + v)
    return v


def forked_all(fn, argss, envs=None, limit=120, at_once=6):
    """fn(*args) for each of argss, each in a child process of its own, a few at once; results in order."""
    out, todo, running = [None] * len(argss), list(range(len(argss))), {}
    try:
        while todo or running:
            while todo and len(running) < at_once:
                i = todo.pop(0)
                pid, r = _start(fn, argss[i], envs[i] if envs else None)
                running[r] = [i, pid, [], time.time() + limit]
            wait = max(0, min(x[3] for x in running.values()) - time.time())
            ready, _, _ = select.select(list(running), [], [], wait)
            if not ready:
                raise MachineryError("a child process does not answer")
            for r in ready:
                b = os.read(r, 1 << 20)
                if b:
                    running[r][2].append(b)
                    continue
                i, pid, data, _ = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                out[i] = _result(b"".join(data))
    finally:
        for r, (_, pid, _, _) in running.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
    return out


def forked(fn, *args, env=None, limit=120):
    """fn(*args) in a child process; the child's modules, patches and environment vanish with it."""
    return forked_all(fn, [args], [env], limit)[0]


def preload():
    """The third-party libraries, so that children only import recap itself."""
    import fastapi  # noqa: F401
    import fastapi.testclient  # noqa: F401
    import pydantic_settings  # noqa: F401
    import typer.testing  # noqa: F401
    import rich  # noqa: F401
    import fsspec  # noqa: F401
    for m in ("mysql.connector", "psycopg2", "snowflake.connector", "google.cloud.bigquery", "pymetastore.metastore", "confluent_kafka.schema_registry",
              "proto_schema_parser.parser", "referencing.jsonschema"):
        try:
            __import__(m)
        except ImportError:
            pass


def http(app, method, path, headers=(), query=b"", body=b""):
    """One request to the ASGI application: (status, content type, body); failures of the application count as 500."""
    from urllib.parse import unquote
    out = {"status": 0, "type": "", "body": b""}

    async def go():
        sent = False

        async def receive():
            nonlocal sent
            if not sent:
                sent = True
                return {"type": "http.request", "body": body, "more_body": False}
            await asyncio.sleep(3600)

        async def send(m):
            if m["type"] == "http.response.start":
                out["status"] = m["status"]
                for k, v in m.get("headers", ()):
                    if k.lower() == b"content-type":
                        out["type"] = v.decode("latin-1")
            elif m["type"] == "http.response.body":
                out["body"] += m.get("body", b"")

        scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "path": unquote(path), "raw_path": path.encode("ascii"),
                 "query_string": query, "root_path": "", "scheme": "http", "headers": [(b"host", b"t"), *headers], "client": ("1.2.3.4", 5), "server": ("t", 80)}
        await app(scope, receive, send)

    try:
        asyncio.run(go())
    except Exception:  # noqa: BLE001
        out["status"] = out["status"] or 500
    return out


def as_json(body):
    try:
        return json.loads(body)
    except ValueError:
        return None

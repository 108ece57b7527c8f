"""Drives the ASGI application of recap's registry with full control over scheduling.

A request's body is handed over piece by piece when the schedule says so.  File system steps made
on worker threads are held back until the schedule releases them; steps made on the event loop's
own thread cannot interleave with anything and run through.
"""
from __future__ import annotations

import asyncio
import json
import threading
import time

import enc
import regdrv
import stepfs
from vlib import MachineryError

URL = "stepfs://disk/reg"


def setup():
    import os
    stepfs.install()
    stepfs.DISKS.clear()
    stepfs.DISKS["disk"] = stepfs.Disk("local")
    os.environ["RECAP_REGISTRY_STORAGE_URL"] = URL
    from recap.server.app import app
    return app


class Request:
    def __init__(self, i, r, chunks):
        self.i, self.r = i, r
        self.chunks = list(chunks)
        self.gate = asyncio.Event()
        self.waiting = False
        self.given = []
        self.sent = 0
        self.aborted = False
        self.status, self.out = None, b""
        self.task = None

    async def receive(self):
        while not self.given:
            self.waiting = True
            await self.gate.wait()
            self.gate.clear()
        self.waiting = False
        return self.given.pop(0)

    async def send(self, m):
        if m["type"] == "http.response.start":
            self.status = m["status"]
        elif m["type"] == "http.response.body":
            self.out += m.get("body", b"")

    def deliver(self, chunk, more):
        self.given.append({"type": "http.request", "body": chunk, "more_body": more})
        self.gate.set()

    def disconnect(self):
        self.given.append({"type": "http.disconnect"})
        self.gate.set()


def scope(r):
    path = {"ls": "/registry/", "post": "/registry/" + r["n"], "get": "/registry/" + r["n"] + ("/versions/" + r["v"] if r["v"] else ""),
            "versions": "/registry/" + r["n"] + "/versions", "put": "/registry/" + r["n"] + "/versions/" + r["v"]}[r["m"]]
    method = {"post": "POST", "put": "PUT"}.get(r["m"], "GET")
    headers = [(b"host", b"t")]
    if r["ct"] == "recap":
        headers.append((b"content-type", b"application/x-recap+json"))
    elif r["ct"] == "other":
        headers.append((b"content-type", r.get("cts", "application/json").encode()))
    return {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "path": path, "raw_path": path.encode("utf-8"),
            "query_string": b"", "root_path": "", "scheme": "http", "headers": headers, "client": ("1.2.3.4", 5), "server": ("t", 80)}


def raw_body(r):
    b = r["b"]
    if b["kind"] == "json":
        return json.dumps(enc.unj(b["d"]), ensure_ascii=r.get("ascii", True)).encode("utf-8")
    if b["kind"] == "text":
        return b["s"].encode("utf-8")
    return bytes.fromhex(b["x"])


class World:
    """One server process with an empty registry."""

    def __init__(self, app, gated=False):
        self.app = app
        self.disk = stepfs.DISKS["disk"] = stepfs.Disk("local")
        self.gated = gated
        self.held: list[tuple[int, threading.Event]] = []
        self.mu = threading.Lock()
        self.requests: dict[int, Request] = {}
        self.events = []
        self.n = 0

    def gate(self, op, path):
        if threading.get_ident() == self.loop_thread or not self.gated:
            return
        ev = threading.Event()
        with self.mu:
            self.held.append(ev)
        if not ev.wait(60):
            raise OSError("schedule never released this step")

    def release(self, idx=0):
        with self.mu:
            ev = self.held.pop(idx)
        ev.set()

    async def quiet(self):
        """Wait until every request is finished or held at a point the schedule controls."""
        t0 = time.time()
        spins = 0
        while True:
            await asyncio.sleep(0)
            busy = [q for q in self.requests.values() if not q.task.done() and not (q.waiting and not q.given)]
            if len(busy) <= len(self.held) or not busy:
                spins += 1
                if spins > 3:
                    break
            else:
                spins = 0
                await asyncio.sleep(0.0002)
            if time.time() - t0 > 20:
                break
        self.collect()

    async def pause(self, ticks):
        """Let the event loop take some turns only, so that requests overlap between any two of their steps."""
        for _ in range(ticks):
            await asyncio.sleep(0)
        self.collect()

    def collect(self):
        for q in self.requests.values():
            if q.task.done() and not getattr(q, "seen", False):
                q.seen = True
                if q.aborted:
                    q.task.exception()
                    continue
                self.events.append(self.answer(q))

    def answer(self, q):
        exc = q.task.exception()
        ev = {"a": "respond", "i": q.i, "status": str(q.status) if q.status else "none", "shape": False, "rv": "", "d": {"t": "null"}, "vs": [], "names": []}
        if exc is not None and q.status is None:
            ev["status"] = "500"
        try:
            v = json.loads(q.out)
        except ValueError:
            return ev
        m = q.r["m"]
        isint = lambda x: isinstance(x, int) and not isinstance(x, bool)
        if m in ("post", "put"):
            ev["shape"] = isint(v)
            ev["rv"] = str(v)
        elif m == "get":
            if isinstance(v, list) and len(v) == 2 and isint(v[1]):
                ev["shape"], ev["rv"], ev["d"] = True, str(v[1]), enc.j(v[0])
        elif m == "versions":
            ev["shape"] = isinstance(v, list) and all(isint(x) for x in v)
            ev["vs"] = [str(x) for x in v] if ev["shape"] else []
        else:
            ev["shape"] = isinstance(v, list) and all(isinstance(x, str) for x in v)
            ev["names"] = [regdrv.cps(x) for x in v] if ev["shape"] else []
        return ev

    def arrive(self, r, i=None, pieces=1):
        self.n += 1
        i = i or self.n
        self.n = max(self.n, i)
        r = {"aborts": False, **r}
        body = raw_body(r) if r["m"] in ("post", "put") else b""
        cut = [len(body) * k // pieces for k in range(pieces + 1)]
        q = Request(i, r, [body[a:b] for a, b in zip(cut, cut[1:])])
        self.requests[i] = q
        self.events.append({"a": "arrive", "i": i, "r": r})
        q.task = asyncio.ensure_future(self.app(scope(r), q.receive, q.send))
        return q

    def deliver(self, i):
        q = self.requests[i]
        c = q.chunks.pop(0)
        q.deliver(c, bool(q.chunks))

    def abort(self, i):
        q = self.requests[i]
        if q.task.done():
            return            # already answered
        q.aborted = True
        self.events.append({"a": "abort", "i": i})
        q.disconnect()

    async def ask(self, r):
        """A request on its own, start to finish."""
        q = self.arrive(r)
        while not q.task.done():
            if q.chunks:
                self.deliver(q.i)
            elif q.waiting and not q.given:
                q.deliver(b"", False)
            await self.quiet()
            while self.held:
                self.release()
                await self.quiet()
        return self.events[-1]

    async def drain(self):
        for _ in range(400):
            await self.quiet()
            if self.held:
                self.release()
                continue
            rest = [q for q in self.requests.values() if not q.task.done()]
            if not rest:
                return
            for q in rest:
                if q.chunks:
                    self.deliver(q.i)
                elif q.waiting and not q.given:
                    q.deliver(b"", False)
        raise MachineryError("requests do not finish")

    async def audit(self, names):
        gated, self.gated = self.gated, False
        R = lambda m, n="", v="": {"m": m, "n": n, "v": v, "ct": "none", "b": {"kind": "json", "d": {"t": "null"}}}
        await self.ask(R("ls"))
        for n in names:
            ev = await self.ask(R("versions", n))
            await self.ask(R("get", n))
            for v in ev["vs"]:
                await self.ask(R("get", n, v))
        self.gated = gated

    def go(self, coro_fn):
        async def main():
            self.loop_thread = threading.get_ident()
            self.disk.gate = self.gate
            try:
                await coro_fn(self)
            finally:
                self.gated = False
                while self.held:
                    self.release()
                for q in self.requests.values():
                    if not q.task.done():
                        q.task.cancel()
                await asyncio.gather(*[q.task for q in self.requests.values()], return_exceptions=True)
        asyncio.run(main())
        return {"events": self.events}

"""Drives recap.storage.registry.RegistryStorage and records every answer."""
from __future__ import annotations

import os
import posixpath

import enc
import stepfs
from vlib import call

CFG = "SPECIFICATION TraceSpec\n"


def cps(s):
    return {"s": s, "cp": [ord(c) for c in s]}


class Store:
    """One storage location, any number of storage objects on it."""

    def __init__(self, kind, scratch=None):
        self.kind = kind
        self.events, self.failed = [], []
        self.scratch = scratch
        if kind.startswith("step"):
            stepfs.install()
            stepfs.DISKS.clear()
            self.disk = stepfs.DISKS["disk"] = stepfs.Disk("object" if kind == "step-object" else "local")
            self.root = "disk/d1/d2/d3/reg"
            self.url = "stepfs://" + self.root
            decoy = b'{"type": "struct", "doc": "decoy"}'
            for d in ("disk", "disk/d1", "disk/d1/d2", "disk/d1/d2/d3", "disk/d1/d2/d3/other"):
                self.disk.dirs.add(d)
                for v in (1, 2):
                    self.disk.files[f"{d}/{v}.json"] = decoy
        elif kind == "memory":
            from fsspec.implementations.memory import MemoryFileSystem
            MemoryFileSystem.store.clear()
            MemoryFileSystem.pseudo_dirs[:] = [""]
            self.url = "memory://base/reg"
        else:
            self.root = os.path.join(scratch, "d1/d2/d3/reg")
            self.url = "file://" + self.root
            for d in ("", "d1", "d1/d2", "d1/d2/d3", "d1/d2/d3/other"):
                os.makedirs(os.path.join(scratch, d), exist_ok=True)
                with open(os.path.join(scratch, d, "1.json"), "w") as f:
                    f.write('{"type": "struct", "doc": "decoy"}')
        self.objs = []
        self.open()

    def open(self):
        from recap.storage.registry import RegistryStorage
        st, o = call(RegistryStorage, self.url)
        if st != "ok":
            raise RuntimeError(f"cannot open storage: {o!r}")
        self.objs.append(o)
        self.snap = self.outside()
        if self.kind.startswith("step"):
            self.disk.log = []

    def outside(self):
        """Contents outside the registry (only what the disk can show without touching it)."""
        if self.kind.startswith("step"):
            return {p: b for p, b in self.disk.files.items() if not p.startswith(self.root + "/")}, {
                p for p in self.disk.dirs if not (p + "/").startswith(self.root + "/")}
        if self.kind == "memory":
            from fsspec.implementations.memory import MemoryFileSystem
            return {p for p in MemoryFileSystem.store if not p.startswith("/base/reg/")}
        out = {}
        for dp, dn, fn in os.walk(self.scratch):
            if dp == self.root:
                dn[:] = []
                continue
            for f in fn:
                p = os.path.join(dp, f)
                out[p] = open(p, "rb").read()
            for d in dn:
                out[os.path.join(dp, d)] = None
        return out

    def obj(self, i):
        return self.objs[i % len(self.objs)]

    def do(self, op, who=0):
        """op: {"op": put|get|versions|latest|ls|open|failput, "n", "v", "t"}"""
        ev = dict(op)
        s = self.obj(who)
        kind = op["op"]
        v = int(op["v"]) if op.get("v") else None
        if kind == "open":
            self.open()
            ev["st"] = "ok"
        elif kind in ("put", "failput"):
            x = op["x"] if "x" in op else enc.build(op["t"])
            ev.pop("x", None)
            st, r = call(s.put, op["n"], x, v) if v is not None else call(s.put, op["n"], x)
            ev["st"], ev["rv"] = st, str(r) if st == "ok" else ""
            if kind == "failput":
                self.failed.append(op["n"])
        elif kind == "get":
            st, r = call(s.get, op["n"], v) if v is not None else call(s.get, op["n"])
            if st == "ok" and r is None:
                st = "absent"
            ev["st"], ev["rv"], ev["r"] = st, "", enc.T("null")
            if st == "ok":
                try:
                    ev["r"], ev["rv"] = enc.t(r[0]), str(r[1])
                except Exception:
                    ev["st"] = "malformed"
        elif kind == "versions":
            st, r = call(s.versions, op["n"])
            ev["vs"] = [str(x) for x in r] if st == "ok" and r else []
            ev["st"] = "absent" if st == "ok" and not r else st
        elif kind == "latest":
            st, r = call(s.latest, op["n"])
            ev["rv"] = str(r)
            ev["st"] = "absent" if st == "ok" and r is None else st
        elif kind == "ls":
            st, r = call(s.ls)
            ev["st"] = st
            ev["names"] = [cps(x) for x in r] if st == "ok" and all(isinstance(x, str) for x in r) else []
        ev["outside"], ev["changed"] = [], []
        if self.kind.startswith("step"):
            ev["outside"] = sorted({p for _, p in self.disk.log if p != self.root and not p.startswith(self.root + "/")})[:3]
            self.disk.log = []
        if self.outside() != self.snap:
            ev["changed"] = ["(something)"]
        self.events.append(ev)
        return ev

    def audit(self, names, versions=(), who=0):
        """Read everything back."""
        self.do({"op": "ls"}, who)
        for n in names:
            ev = self.do({"op": "versions", "n": n}, who)
            self.do({"op": "get", "n": n, "v": ""}, who)
            self.do({"op": "latest", "n": n}, who)
            for v in sorted(set(ev["vs"]) | set(versions)):
                self.do({"op": "get", "n": n, "v": v}, who)

    def record(self):
        return {"kind": self.kind, "events": self.events, "failed": self.failed}

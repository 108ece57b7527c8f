"""C14: reading Protobuf files."""
import json

import enc
import proto
from checks.c10 import resolutions
from vlib import call


def observe(f, text):
    from recap.converters.protobuf import ProtobufConverter

    st, t = call(ProtobufConverter().to_recap, text)
    return {"op": "read", "f": f, "text": text, "st": st, "t": enc.t(t) if st == "ok" else enc.T("null"), "refs": resolutions(t) if st == "ok" else []}


def files(ctx):
    r = ctx.explore("MC_Protobuf", "SPECIFICATION Spec\nCONSTANT MaxFields = %d\nINVARIANTS InOrder AtMostOnce RefsExpandedBefore "
                    "NullableUnlessRequired WrittenIsRight Emit\nCHECK_DEADLOCK FALSE\n" % 2, workers=6, heap="6g")
    out, seen = [], set()
    for ln in r.lines:
        for f in ln["x"]:
            h = json.dumps(f, sort_keys=True)
            if h not in seen:
                seen.add(h)
                out.append((f, proto.text(f)))
    if ctx.quick:
        out = out[:800] + ctx.rng.sample(out[800:], min(1200, len(out[800:])))
    ctx.extra["files_enumerated_by_tlc"] = len(out)
    for _ in range(700 if ctx.quick else 15000):
        f = proto.ProtoGen(ctx.rng).file()
        out.append((f, proto.text(f, ctx.rng)))
    return out


def run(ctx):
    if ctx.replay:
        rec = ctx.replay["record"]
        fs = [(rec["f"], rec["text"])]
    else:
        fs = files(ctx)
    recs = [observe(*f) for f in fs]
    ctx.extra["accepted"] = sum(r["st"] == "ok" for r in recs)
    for r in recs[-2:]:
        ctx.sample({"file": r["text"], "outcome": r["st"]})
    ctx.judge("Trace_Protobuf", recs)

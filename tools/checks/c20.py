import json
import lib

def run(ctx):
    b = lib.build_net()
    ctx.tlc.run("UdpNode", "UdpNode_mc.cfg", consts={"MaxOps": ctx.pick(5, 6)}, timeout=3000)
    t = ctx.path("udp.nd")
    lines = ctx.tlc.run("UdpGen", "UdpGen.cfg", simulate=ctx.pick(800, 20000), depth=400, out=t, timeout=3000)
    ctx.harness(b, ["udp-effects", t], timeout=3000)
    ctx.sample(lines[0])
    # commands and datagrams at the same time: the recorded runs must be behaviours of UdpNode
    r = ctx.path("runs.nd")
    ctx.harness(b, ["udp-record", str(ctx.pick(400, 4000)), r], timeout=3000)
    runs = [json.loads(l) for l in open(r)]
    if not runs:
        return
    ids = {k: x for k, x in enumerate(runs, 1)}
    ok = set(int(l) for l in ctx.tlc.run("UdpTrace", "UdpTrace.cfg", env={"TRACE": r}, timeout=3000))
    for k in sorted(set(ids) - ok):
        ctx.violation("not-a-behaviour", "a recorded run (events, handshakes by peer) is not a behaviour of UdpNode", json.dumps(ids[k]))
    ctx.notes["recorded_runs_explained"] = len(ok)
    ctx.assumptions += ["the loopback network delivers the datagrams of a burst of at most 13",
                        "an effect that takes longer than 10 s counts as missing"]

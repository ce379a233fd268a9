import lib

def run(ctx):
    b = lib.build_net()
    ctx.tlc.run("UdpNode", "UdpNode_live.cfg", consts={"MaxOps": ctx.pick(5, 7)}, timeout=3000)
    t = ctx.path("udp.nd")
    lines = ctx.tlc.run("UdpGen", "UdpGen.cfg", simulate=ctx.pick(900, 20000), depth=400, out=t, timeout=3000,
                        consts={"MaxOps": 24})
    ctx.harness(b, ["udp-ends", t], timeout=3000)
    ctx.sample(lines[0])
    ctx.assumptions += ["bounded time means 15 s for join and 5 s for the end of the event stream (the code polls every 2 s)"]

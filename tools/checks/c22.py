import lib

def run(ctx):
    b = lib.build_net()
    ctx.tlc.run("TcpNode", "TcpNode_mc.cfg", consts={"MaxOps": ctx.pick(6, 9)}, timeout=3000)
    t = ctx.path("tcp.nd")
    lines = ctx.tlc.run("TcpGen", "TcpGen.cfg", simulate=ctx.pick(800, 20000), depth=1000, out=t, timeout=3000)
    ctx.harness(b, ["tcp", t], timeout=3000)
    ctx.sample(lines[0])
    ctx.assumptions += ["bounded time means 15 s for join, 10 s for a command, 5 s for the end of the event stream (the code polls every second)"]

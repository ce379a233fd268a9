from checks import node

def run(ctx):
    node.spec(ctx)
    t = ctx.path("points.nd")
    ctx.tlc.run("NodeEnum", "NodeEnum.cfg", out=t, consts={"Points": ctx.pick(20, 40), "First": ctx.pick("{6, 15}", "{2, 4, 6, 8, 10, 12, 14, 15, 16, 17, 18}")})
    node.play(ctx, t, "points")
    node.random(ctx, "crash", ctx.pick(60, 1500), Mode="crash")
    ctx.assumptions += ["a crash is the end of the process at a file-system operation or at any time by a signal; the operating system keeps what it was given (no loss of power)"]

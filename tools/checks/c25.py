from checks import node

def run(ctx):
    node.spec(ctx)
    node.random(ctx, "stop", ctx.pick(120, 2500), Mode="stop", MaxOps=ctx.pick(20, 30))
    ctx.assumptions += ["bounded time means 15 s (the code needs about 2 s after what is queued)"]

from checks import node

def run(ctx):
    node.spec(ctx)
    node.random(ctx, "control", ctx.pick(60, 1500), Mode="control", MaxOps=ctx.pick(40, 60))
    # one life of many connections, with few file descriptors to lose
    node.random(ctx, "life", ctx.pick(8, 40), files=64, Mode="control", Streak=85, MaxOps=ctx.pick(250, 1000), MaxConn=2000, Dir="{1}", depth=20000)
    node.clients(ctx, ctx.pick(60, 1500))
    ctx.assumptions += ["a command completed within 1 s is well-formed in time (the code waits 2 s); a command that takes longer than 10 s to act, not counting stalled connections, counts as lost",
                        "a command is observed by the TCP connection the node makes to the address in it"]

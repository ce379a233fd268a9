from checks.handshake import Handshake, HOSTILE, ALL

def run(ctx):
    h = Handshake(ctx)
    h.replay("native", h.explore(ALL, 0), ctx.pick(40, 400))
    p = h.explore(HOSTILE, ctx.pick(1, 2))
    h.replay("native", p)
    h.replay("exact", p)
    h.replay("native", h.random(ctx.pick(2400, 40000), casts=HOSTILE))

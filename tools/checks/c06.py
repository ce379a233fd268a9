from checks.handshake import Handshake, ALL, SHARED

def run(ctx):
    h = Handshake(ctx)
    h.replay("native", h.explore(ALL, 0), ctx.pick(100, 1000))
    h.replay("native", h.explore(ALL, 1))
    if not ctx.quick:
        h.replay("native", h.explore(SHARED, 2))
    h.replay("native", h.random(ctx.pick(1600, 40000)))

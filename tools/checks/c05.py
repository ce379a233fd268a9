from checks.handshake import Handshake, ALL

def run(ctx):
    h = Handshake(ctx)
    h.replay("exact", h.explore(ALL, 0), ctx.pick(60, 1000))
    h.replay("exact", h.explore(ALL, 1))
    h.replay("exact", h.random(ctx.pick(1600, 40000), budget=2))

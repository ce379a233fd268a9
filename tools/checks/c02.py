from checks.handshake import Handshake, ALL

def run(ctx):
    h = Handshake(ctx)
    h.replay("native", h.explore(ALL, 1))
    if not ctx.quick:
        h.replay("native", h.explore("{1, 2, 3, 6, 8, 20}", 2))
    h.replay("native", h.random(ctx.pick(3200, 60000)))
    h.positions(h.explore("{1}", 1), ctx.pick(1, 8))

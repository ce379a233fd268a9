from checks.handshake import Handshake, ALL

def run(ctx):
    h = Handshake(ctx)
    h.replay("native", h.explore(ALL, 0), ctx.pick(150, 4000))
    # interference with the other pair must not matter
    h.replay("native", h.explore(ALL, 1))
    h.replay("native", h.random(ctx.pick(1600, 30000), budget=1))

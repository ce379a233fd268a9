from checks.handshake import Handshake, ALL, HOSTILE

def run(ctx):
    h = Handshake(ctx)
    h.replay("native", h.explore(ctx.pick("{1, 4, 6, 9, 12, 20}", ALL), 1, damages="{0, 1, 2, 5, 6}"))
    # malformed long-term keys inside well-formed encrypted messages
    h.replay("exact", h.explore("{22, 23, 24, 25, 26, 27}", 1, damages="{0, 1, 2, 5, 6}"))
    h.replay("native", h.random(ctx.pick(1600, 40000), budget=6))
    h.positions(h.explore("{1}", 1), ctx.pick(1, 8))
    # transport messages of every length and damage
    t = ctx.path("channel.nd")
    ctx.tlc.run("ChannelGen", "ChannelGen.cfg", simulate=ctx.pick(800, 10000), depth=100, out=t)
    rep = ctx.harness(h.bin, ["channel-panics", t])

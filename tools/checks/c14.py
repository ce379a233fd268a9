from checks import kem

def run(ctx):
    b = kem.behaviours(ctx, "exact", ctx.pick(1600, 30000))
    kem.records(ctx, b, ctx.pick(24, 300))
    ctx.harness(b, ["kyber-diff", str(ctx.pick(60000, 2000000))], timeout=3000)

from checks import kem

def run(ctx):
    b = kem.behaviours(ctx, "recover", ctx.pick(4000, 60000))
    ctx.harness(b, ["kem-honest", str(ctx.pick(60000, 3000000))], timeout=3000)

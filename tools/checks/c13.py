from checks import kem

def run(ctx):
    b = kem.behaviours(ctx, "reject", ctx.pick(4000, 60000))
    ctx.harness(b, ["kem-bits", str(ctx.pick(48, 3000))], timeout=3000)

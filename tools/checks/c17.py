from checks import schnorr

def run(ctx):
    b = schnorr.behaviours(ctx, "genuine")
    ctx.harness(b, ["schnorr-honest", str(ctx.pick(5000, 1000000))], timeout=3000)

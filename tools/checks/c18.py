from checks import schnorr

def run(ctx):
    b = schnorr.behaviours(ctx, "altered")
    ctx.harness(b, ["schnorr-bits", str(ctx.pick(160, 6000))], timeout=3000)

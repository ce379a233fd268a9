import lib

def run(ctx):
    b = lib.build_crypto()
    ctx.tlc.run("Codec", "Codec_mc.cfg", consts={"MaxOps": ctx.pick(6, 7)}, timeout=3000)
    t = ctx.path("codec.nd")
    ctx.tlc.run("CodecGen", "CodecGen.cfg", simulate=ctx.pick(5000, 200000), depth=50, out=t, timeout=3000)
    ctx.harness(b, ["codec", t, str(ctx.pick(4, 10))], timeout=3000)
    ctx.assumptions += ["types outside the menu of 46 behave as those in it"]

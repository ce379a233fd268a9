import lib

def run(ctx):
    b = lib.build_crypto()
    # every pattern, both roles agree; the behaviours replayed with the published vectors
    p = ctx.path("patterns.nd")
    ctx.tlc.run("NoisePatterns", "NoisePatterns.cfg", out=p)
    ctx.harness(b, ["patterns", p, lib.VERIF + "/spec/vectors/cacophony.json"])
    # arbitrary operation histories
    ctx.tlc.run("NoiseSym", "NoiseSym_mc.cfg", consts={"MaxOps": ctx.pick(5, 7)})
    t = ctx.path("sym.nd")
    lines = ctx.tlc.run("NoiseSymGen", "NoiseSymGen.cfg", simulate=ctx.pick(5000, 100000), depth=40, out=t)
    ctx.harness(b, ["sym", t])
    ctx.sample(lines[0])
    # hundreds of messages under one key
    t = ctx.path("long.nd")
    ctx.tlc.run("NoiseSymLong", "NoiseSymLong.cfg", simulate=ctx.pick(16, 400), depth=740, out=t)
    ctx.harness(b, ["symlong", t])
    ctx.assumptions += ["SHA-2/SHA-3/AES-GCM/ChaCha20-Poly1305 as implemented by the crates of the lock file",
                        "transport keys are observed through the messages they encrypt"]

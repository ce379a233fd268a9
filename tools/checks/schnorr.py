"""C17, C18: Schnorr.tla and its binding."""
import lib


def behaviours(ctx, about):
    b = lib.build_crypto()
    ctx.tlc.run("Schnorr", "Schnorr_mc.cfg", consts={"MaxOps": ctx.pick(4, 5)}, timeout=3000)
    t = ctx.path("schnorr.nd")
    ctx.tlc.run("SchnorrGen", "SchnorrGen.cfg", simulate=ctx.pick(2400, 60000), depth=40, out=t, timeout=3000)
    ctx.harness(b, ["schnorr", about, t, "2"], timeout=3000)
    ctx.assumptions += ["hash functions behave as random ones and discrete logarithms are hard: every hash value is an indeterminate of its own",
                        "Edwards keys lie in the prime-order group"]
    return b

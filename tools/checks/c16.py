import lib

def run(ctx):
    b = lib.build_crypto()
    for c in ("ed", "mont", "secp"):
        # the three share the specification; they differ in zero and in sums
        ctx.tlc.run("CurveAlg", "CurveAlg_mc.cfg", consts={"Curve": '"%s"' % c, "MaxOps": ctx.pick(4, 5)}, timeout=3000)
        t = ctx.path(c + ".nd")
        ctx.tlc.run("CurveAlgGen", "CurveAlgGen.cfg", consts={"Curve": '"%s"' % c}, simulate=ctx.pick(800, 30000), depth=60, out=t, timeout=3000)
        ctx.harness(b, ["curve", t], timeout=3000)
    ctx.harness(b, ["curve-diff", str(ctx.pick(12000, 600000))], timeout=3000)
    ctx.assumptions += ["indeterminates are instantiated with random and extreme values: distinct polynomials of small degree take distinct values except with negligible probability"]

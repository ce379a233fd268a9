import lib

def run(ctx):
    b = lib.build_crypto()
    ctx.tlc.run("Keys", "Keys_mc.cfg", consts={"MaxOps": ctx.pick(4, 5)}, timeout=3000)
    t = ctx.path("keys.nd")
    ctx.tlc.run("KeysGen", "KeysGen.cfg", simulate=ctx.pick(4000, 100000), depth=50, out=t, timeout=3000)
    ctx.harness(b, ["keys", t, str(ctx.pick(4, 8))], timeout=3000)
    # the texts, recomputed by the specification
    r = ctx.path("texts.nd")
    n = ctx.pick(3000, 40000)
    ctx.harness(b, ["id-records", str(n), r], timeout=3000)
    try:
        ctx.tlc.run("IdentityText", "IdentityText.cfg", env={"TRACE": r}, timeout=3000)
    except lib.ToolError as e:
        if "is violated" not in str(e):
            raise
        lines = open(r).read().splitlines()
        i = [l for l in ctx.tlc.last_text.splitlines() if l.startswith("i = ")]
        rec = lines[int(i[-1][4:]) - 1] if i else "?"
        ctx.violation("text", "the specification of the text form disagrees: " + rec[:600], rec)
    ctx.assumptions += ["SHA3-256 is free of collisions", "the elliptic parts are points of the group in canonical form"]

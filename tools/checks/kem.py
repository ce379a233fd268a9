"""C12-C14: Kem.tla, KyberPke.tla and their binding."""
import json
import lib


def behaviours(ctx, about, n):
    b = lib.build_crypto()
    ctx.tlc.run("Kem", "Kem_mc.cfg", consts={"MaxOps": ctx.pick(4, 5)}, timeout=3000)
    t = ctx.path("kem.nd")
    ctx.tlc.run("KemGen", "KemGen.cfg", simulate=n, depth=30, out=t, timeout=3000)
    ctx.harness(b, ["kem", about, t], timeout=3000)
    ctx.assumptions += ["the underlying encryption is an ideal public-key encryption in Kem.tla; its arithmetic is specified in KyberPke.tla",
                        "hash functions are free of collisions"]
    return b


def records(ctx, b, n):
    """KyberPke.tla recomputes what the crate produced"""
    t = ctx.path("records.nd")
    ctx.harness(b, ["kyber-records", str(n), t], timeout=3000)
    if ctx.violations:
        return
    try:
        ctx.tlc.run("KyberPke", "KyberPke.cfg", env={"TRACE": t}, timeout=3000)
    except lib.ToolError as e:
        # a hash value that was not supplied means that TLC arrived at another message
        if "is violated" not in str(e) and "CHOOSE" not in str(e):
            raise
        m = [l for l in ctx.tlc.last_text.splitlines() if "MISMATCH" in l]
        ctx.violation("bytes", "the specification computes other bytes: %s" % (m[:3] or str(e)[-1500:]), "seed %d, %d records" % (ctx.seed, n))

"""C01-C06: XX.tla and its binding."""
import lib

ALL = "{%s}" % ", ".join(map(str, range(1, 30)))
SHARED = "{%s}" % ", ".join(map(str, range(10, 22)))      # sessions sharing seeds
HOSTILE = "{2, 3, 4, 5, 6, 7, 8, 9, 22, 23, 24, 25, 26, 27, 28, 29}"
NATIVE_HOSTILE = "{2, 3, 4, 5, 6, 7, 8, 9, 28, 29}"


class Handshake:
    def __init__(self, ctx):
        self.ctx = ctx
        self.bin = lib.build_crypto()
        ctx.assumptions += ["symbolic model: hashes, key derivation, the AEAD, the KEM and Diffie-Hellman are ideal",
                            "two pairs of instances, %s" % "all combinations of alterations within the stated budgets"]

    def explore(self, casts, budget, damages="{0, 1, 2}", emit=True):
        """every behaviour; the invariants of XX.tla hold on each"""
        p = self.ctx.path("xx-%d.nd" % len(self.ctx.tlc.runs))
        self.ctx.tlc.run("XX", "XX_mc.cfg", out=p, timeout=3000,
                         consts={"Casts": casts, "Budget": budget, "Damages": damages, "Emit": "TRUE" if emit else "FALSE"})
        return p

    def random(self, n, casts=ALL, budget=4):
        p = self.ctx.path("xxgen-%d.nd" % len(self.ctx.tlc.runs))
        self.ctx.tlc.run("XXGen", "XXGen.cfg", simulate=n, depth=12, out=p, timeout=3000, consts={"Casts": casts, "Budget": budget})
        return p

    def replay(self, how, path, reps=1):
        self.ctx.harness(self.bin, ["xx", self.ctx.prop, how, path, str(reps)], timeout=3000)

    def positions(self, path, bits):
        self.ctx.harness(self.bin, ["xx-bytes", self.ctx.prop, path, str(bits)], timeout=3000)

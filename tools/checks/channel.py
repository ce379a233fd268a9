"""C07, C08, C09: Channel.tla and its binding."""
import json
import lib


def run(ctx, long_too):
    b = lib.build_crypto()
    ctx.tlc.run("Channel", "Channel_mc.cfg", consts={"Ads": "{0}", "MaxSend": ctx.pick(2, 3)}, timeout=3000)
    if not ctx.quick or not long_too:
        ctx.tlc.run("Channel", "Channel_mc.cfg", consts={"Chans": "{1}", "MaxSend": ctx.pick(3, 4)}, timeout=3000)
    t = ctx.path("channel.nd")
    lines = ctx.tlc.run("ChannelGen", "ChannelGen.cfg", simulate=ctx.pick(2400, 40000), depth=100, out=t)
    ctx.harness(b, ["channel", t])
    ctx.sample(json.loads(lines[0]))
    if long_too:
        total = ctx.pick(2**32 + 600, 2**33 + 600)
        rep = ctx.harness(b, ["long", str(total)], timeout=3000)
        w = ctx.path("windows.nd")
        open(w, "w").write(rep.get("extra", {}).get("windows", ""))
        if not ctx.violations:
            try:
                ctx.tlc.run("NonceTrace", "NonceTrace.cfg", env={"TRACE": w}, workers=1)
            except lib.ToolError as e:
                if "is violated" not in str(e):
                    raise
                ctx.violation("nonce", "recorded nonces do not count: " + str(e)[-1500:], open(w).read())
    ctx.assumptions += ["the AEAD crates authenticate: damaged, foreign or misplaced ciphertexts are modelled as rejected",
                        "rotation schedules are exercised with rotors defined by the harness; the crate provides only the non-rotating one"]

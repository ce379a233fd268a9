"""Shared by C23, C24, C25: scripts of NodeProc run with real processes, recorded, explained by NodeTrace."""
import json, os, re, shutil, subprocess
import lib

WHO = {"C23": "identity", "C24": "control", "C25": "stop"}


def shim():
    out = os.path.join(lib.BUILD, "crash.so")
    src = os.path.join(lib.VERIF, "harness/shim/crash.c")
    r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", out, src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise lib.ToolError("shim: " + r.stdout[-1000:])
    return out


def spec(ctx):
    ctx.tlc.run("NodeProc", "NodeProc_mc.cfg", timeout=3000, consts=None if ctx.quick else {"MaxOps": 5})
    ctx.tlc.run("NodeProc", "NodeProc_live.cfg", timeout=3000)


def blame(ev, i):
    """which properties the first unexplained event of a recorded run speaks about"""
    e = ev[i]
    mine = [x for x in ev[:i] if x["d"] == e["d"]]
    since = []
    for x in mine:
        since = [x] if x["e"] == "start" else since + [x]
    last = {x["e"] for x in since}
    before = [x["e"] for x in mine[:len(mine) - len(since)]]
    ended = before[-1] if before else ""
    if e["e"] == "announce":
        return {"C23", "C25"} if ended == "exit" else {"C23"}
    if e["e"] in ("rival", "busy"):
        return {"C23", "C25"} if ended == "exit" and e["e"] == "busy" else {"C23"}
    if e["e"] in ("acted", "settled", "refused", "opened", "finished"):
        return {"C24"}
    if "ready" not in last and e["e"] in ("mute", "exit", "crashed", "ready"):
        # it does not start
        who = {"C23"} if "announce" not in last else {"C24"}
        if since and since[0]["k"] == "stale":
            who.add("C24")
        if ended == "exit":
            who.add("C25")
        return who
    if e["e"] in ("hang", "exit", "crashed"):
        return {"C25"} if "int" in last or e["e"] == "hang" else {"C24"}
    return set(WHO)


def explain(ctx, rec):
    runs = [json.loads(l) for l in open(rec)]
    ok = set(int(l) for l in ctx.tlc.run("NodeTrace", "NodeTrace.cfg", env={"TRACE": rec}, timeout=3000))
    bad = [k for k in range(1, len(runs) + 1) if k not in ok]
    ctx.notes["recorded_runs_explained"] = ctx.notes.get("recorded_runs_explained", 0) + len(ok)
    if not bad:
        return
    sub = rec + ".bad"
    with open(sub, "w") as f:
        for k in bad[:40]:
            f.write(json.dumps(runs[k - 1]) + "\n")
    far = {}
    for l in ctx.tlc.run("NodeTrace", "NodeTrace.cfg", env={"TRACE": sub}, consts={"Emit": "TRUE"}, timeout=3000):
        m = re.match(r"(\d+):(\d+)$", l)
        if m:
            far[int(m.group(1))] = max(far.get(int(m.group(1)), 1), int(m.group(2)))
    for n, k in enumerate(bad[:40], 1):
        ev = runs[k - 1]["ev"]
        i = min(far.get(n, 1), len(ev)) - 1
        if ctx.prop in blame(ev, i):
            ctx.violation("not-a-behaviour", "a recorded run of node processes is not a behaviour of NodeProc: nothing explains event %d, %s, after %s"
                          % (i + 1, json.dumps(ev[i]), json.dumps(ev[max(0, i - 6):i])), json.dumps(ev))
        else:
            ctx.notes["runs_unexplained_for_other_properties"] = ctx.notes.get("runs_unexplained_for_other_properties", 0) + 1


def play(ctx, scripts, name, files=0):
    b, bins, so = lib.build_net(), lib.build_node(), shim()
    scratch = os.path.join("/tmp", "vru-%s-%s-%d" % (ctx.prop, name, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    rec = ctx.path(name + ".rec")
    try:
        ctx.harness(b, ["node", scripts, bins, so, scratch, str(files), rec], timeout=3400)
        explain(ctx, rec)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def random(ctx, name, n, files=0, depth=3000, **consts):
    t = ctx.path(name + ".nd")
    lines = ctx.tlc.run("NodeGen", "NodeGen.cfg", simulate=n, depth=depth, out=t, timeout=3000,
                        consts={k: ('"%s"' % v if k == "Mode" else v) for k, v in consts.items()})
    ctx.sample(json.loads(lines[0])[:40])
    play(ctx, t, name, files)


def clients(ctx, n):
    """the command-line client against a socket of ours"""
    ctx.tlc.run("Client", "Client_mc.cfg", timeout=3000)
    t = ctx.path("client.nd")
    ctx.tlc.run("Client", "ClientGen.cfg", simulate=n, depth=100, out=t, timeout=3000)
    scratch = os.path.join("/tmp", "vru-%s-client-%d" % (ctx.prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    try:
        ctx.harness(lib.build_net(), ["client", t, lib.build_node(), scratch], timeout=3400)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

"""Queue of variable-length records in (shared) memory."""
import vlib


def word(o):
    return {"push": lambda: f"push {o['n']}", "push2": lambda: f"push2 {o['n']} {o['k']}", "pop": lambda: f"pop {o['s']}",
            "pop2": lambda: f"pop2 {o['s']} {o['k']}", "full": lambda: f"full {o['n']}"}[o["o"]]()


def bufq(ctx):
    exe = ctx.build("bufq", ["d_bufq.cpp"], [], tsan=True)
    ctx.model_check("MCBufQ", "MCBufQ", min_states=500)
    edges = ctx.generate("MCBufQ", "GenBufQ")
    walks, heads = [], []
    for c in sorted({e["f"].split(",")[0] for e in edges}):
        es = [(e["f"], e["o"], e["t"]) for e in edges if e["f"].split(",")[0] == c]
        room = c.strip("<< ")
        ws = vlib.tours([(f, o, t) for f, o, t in es], f"<<{room}, <<>>, 0>>", seed=ctx.seed, maxlen=80)
        walks += ws
        heads += [room] * len(ws)
    ctx.extra["script_edges"] = len(edges)
    path = f"{ctx.dir}/bufq.txt"
    with open(path, "w") as f:
        for h, w in zip(heads, walks):
            f.write(" ".join([h] + [word(o) for o in w]) + "\n")
    n = 10 if ctx.thorough else 1
    cb = vlib.callret
    ctx.conform("script", exe, "TraceBufQ", len(walks), chunk=max(10, len(walks) // 16 + 1), mode="script", script=path, prep=cb)
    ctx.conform("seq", exe, "TraceBufQ", 320 * n, chunk=40, mode="seq", prep=cb)
    ctx.conform("spsc", exe, "TraceBufQ", 1600 * n, chunk=100, mode="spsc", prep=cb)
    ctx.conform("die", exe, "TraceBufQ", 1600 * n, chunk=100, mode="die", prep=cb)


CHECKS = {"C16": bufq}

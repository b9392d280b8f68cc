"""LRU cache: sequential semantics (scripts from TLC's state graph, random histories) and thread safety."""
import vlib


def write_script(ctx, name, walks, head, word):
    path = f"{ctx.dir}/{name}.txt"
    with open(path, "w") as f:
        for h, w in zip(head, walks):
            f.write(" ".join([h] + [word(o) for o in w]) + "\n")
    return path


def word(o):
    return {"set": lambda: f"set {o['k']} {o['v']} {o['x']}", "get": lambda: f"get {o['k']}",
            "del": lambda: f"del {o['k']}", "clear": lambda: "clear", "size": lambda: "size",
            "tick": lambda: f"tick {o['d']}"}[o["o"]]()


def lru_seq(ctx):
    exe = ctx.build("lru", ["d_lru.cpp"], ["Utils.cpp"], tsan=True)
    ctx.model_check("MCLru", "MCLru", min_states=1000)
    edges = ctx.generate("MCLru", "GenLru")
    walks, heads = [], []
    caps = sorted({e["f"].split(",")[0] for e in edges})
    for c in caps:
        es = [(e["f"], e["o"], e["t"]) for e in edges if e["f"].split(",")[0] == c]
        cap = c.strip("<< ")
        init = f"<<{cap}, <<>>, <<>>, 0>>"
        ws = vlib.tours(es, init, seed=ctx.seed, maxlen=60)
        walks += ws
        heads += [cap] * len(ws)
    ctx.extra["script_edges"] = len(edges)
    sc = write_script(ctx, "lru", walks, heads, word)
    ctx.conform("script", exe, "TraceLru", len(walks), chunk=max(10, len(walks) // 16 + 1), mode="script", script=sc,
                prep=vlib.callret)
    ctx.conform("seq", exe, "TraceLru", 2000 if ctx.thorough else 96, chunk=12, mode="seq", prep=vlib.callret)
    ctx.model_check("MCLruV2", "MCLruV2Big" if ctx.thorough else "MCLruV2", min_states=1000)
    ctx.conform("v2seq", exe, "TraceLruV2", 2000 if ctx.thorough else 240, chunk=30, mode="v2seq", prep=vlib.callret)


def lru_conc(ctx):
    exe = ctx.build("lru", ["d_lru.cpp"], ["Utils.cpp"], tsan=True)
    ctx.conform("conc", exe, "TraceLru", 20000 if ctx.thorough else 1600, chunk=100, mode="conc", prep=vlib.callret)
    ctx.conform("v2conc", exe, "TraceLruV2", 10000 if ctx.thorough else 800, chunk=100, mode="v2conc", prep=vlib.callret)


CHECKS = {"C17": lru_seq, "C18": lru_conc}

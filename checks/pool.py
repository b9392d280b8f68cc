"""Worker pools."""
from checks.comm import SRC, ncon


def pool(ctx):
    src = SRC + ["CTask.cpp", "CThread.cpp", "CHttpReader.cpp", "CHttpWriter.cpp"]
    t = ctx.build("poolrace", ["d_pool.cpp"], src, tsan=True, vk=True)
    exe = ctx.build("pool", ["d_pool.cpp"], src, asan=True, vk=True)
    ctx.model_check("MCPool", "MCPoolDeep" if ctx.thorough else "MCPool", workers="8", min_states=10000)
    k = 15 if ctx.thorough else 1
    ctx.conform("pool", exe, "TracePool", 480 * k, chunk=40, mode="pool", prep=ncon)
    ctx.conform("pool-race", t, "TracePool", 240 * k, chunk=20, mode="pool", prep=ncon)


CHECKS = {"C13": pool}

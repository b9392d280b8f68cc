"""Bitmaps and arrays in shared memory (C24)."""


def shm(ctx):
    n = 12 if ctx.thorough else 1
    ctx.model_check("MCShm", "MCShm", min_states=1000)
    if ctx.thorough:
        ctx.model_check("MCShm", "MCShmDeep", min_states=1000)
    exe = ctx.build("shm", ["d_shm.cpp"], [], asan=True)
    ctx.conform("shm", exe, "TraceShm", 800 * n, chunk=50)


CHECKS = {"C24": shm}

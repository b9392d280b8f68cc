"""Asynchronous log (C19); log files and their rotation (C20)."""
SRC = ["CAsyncLog.cpp", "CFileLog.cpp", "CLog.cpp", "CThread.cpp", "Utils.cpp"]


def start(ctx):
    ctx.model_check("MCLog", "MCLog", min_states=1000)
    if ctx.thorough:
        ctx.model_check("MCLog", "MCLogDeep", min_states=1000)
    return ctx.build("log", ["d_log.cpp"], SRC, tsan=True), 12 if ctx.thorough else 1


def asyncl(ctx):
    exe, n = start(ctx)
    ctx.conform("async", exe, "TraceLog", 1600 * n, chunk=100, mode="async")
    ctx.conform("clog", exe, "TraceLog", 400 * n, chunk=50, mode="clog")


def rotation(ctx):
    exe, n = start(ctx)
    ctx.conform("file", exe, "TraceLog", 500 * n, chunk=50, mode="file")
    ctx.conform("rot", exe, "TraceLog", 600 * n, chunk=50, mode="rot")
    ctx.conform("filec", exe, "TraceLog", 400 * n, chunk=50, mode="filec")


CHECKS = {"C19": asyncl, "C20": rotation}

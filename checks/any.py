"""CAnyValue: building and looking, binary form and packages (C22); JSON and XML (C29)."""


def start(ctx):
    exe = ctx.build("any", ["d_any.cpp"], [], asan=True)
    ctx.model_check("MCAny", "MCAny", min_states=1000)
    if ctx.thorough:
        ctx.model_check("MCAny", "MCAnyDeep", min_states=1000)
    return exe, 12 if ctx.thorough else 1


def tree(ctx):
    exe, n = start(ctx)
    ctx.conform("ops", exe, "TraceAny", 400 * n, chunk=25, mode="ops")
    ctx.conform("bin", exe, "TraceAny", 800 * n, chunk=50, mode="bin")
    ctx.conform("deepbin", exe, "TraceAny", 16 * n, chunk=2, mode="deepbin")


def text(ctx):
    exe, n = start(ctx)
    ctx.conform("json", exe, "TraceAny", 1600 * n, chunk=100, mode="json")
    ctx.conform("deepjson", exe, "TraceAny", 16 * n, chunk=2, mode="deepjson")


CHECKS = {"C22": tree, "C29": text}

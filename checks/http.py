"""HTTP requests (C21) and responses (C30); URL coding, dates and string helpers (C31)."""
SRC = ["CHttpReader.cpp", "CHttpWriter.cpp", "Utils.cpp"]


def start(ctx):
    ctx.model_check("MCHttp", "MCHttp", min_states=1000)
    if ctx.thorough:
        ctx.model_check("MCHttp", "MCHttpDeep", min_states=1000)
    return ctx.build("http", ["d_http.cpp"], SRC, asan=True), 12 if ctx.thorough else 1


def request(ctx):
    exe, n = start(ctx)
    ctx.conform("req", exe, "TraceHttp", 1600 * n, chunk=50, mode="req")


def response(ctx):
    exe, n = start(ctx)
    ctx.conform("resp", exe, "TraceHttp", 800 * n, chunk=50, mode="resp")


def util(ctx):
    exe, n = start(ctx)
    ctx.conform("util", exe, "TraceHttp", 1200 * n, chunk=100, mode="util")
    conc = ctx.build("httpc", ["d_http.cpp"], SRC, tsan=True)
    ctx.conform("conc", conc, "TraceHttp", 240 * n, chunk=30, mode="conc")


CHECKS = {"C21": request, "C30": response, "C31": util}

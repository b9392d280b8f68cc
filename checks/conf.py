"""Configuration files (C23)."""


def conf(ctx):
    n = 12 if ctx.thorough else 1
    ctx.model_check("MCConf", "MCConf", min_states=1000)
    if ctx.thorough:
        ctx.model_check("MCConf", "MCConfDeep", min_states=1000)
    exe = ctx.build("conf", ["d_conf.cpp"], ["CConfig.cpp", "Utils.cpp"], asan=True)
    ctx.conform("conf", exe, "TraceConf", 2400 * n, chunk=100)


CHECKS = {"C23": conf}

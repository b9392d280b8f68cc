"""Binary packages (C25)."""


def pkg(ctx):
    n = 12 if ctx.thorough else 1
    ctx.model_check("MCPkg", "MCPkg", min_states=1000)
    if ctx.thorough:
        ctx.model_check("MCPkg", "MCPkgDeep", min_states=1000)
    exe = ctx.build("pkg", ["d_pkg.cpp"], [], asan=True)
    ctx.conform("pkg", exe, "TracePkg", 1600 * n, chunk=100)


CHECKS = {"C25": pkg}

"""Client connectors (C26)."""


def conn(ctx):
    n = 12 if ctx.thorough else 1
    ctx.model_check("MCConn", "MCConn", min_states=1000)
    if ctx.thorough:
        ctx.model_check("MCConn", "MCConnDeep", min_states=1000)
    exe = ctx.build("conn", ["d_conn.cpp"], ["CTcpConnector.cpp", "CUdpConnector.cpp"], asan=True)
    ctx.conform("tcp", exe, "TraceConn", 1600 * n, chunk=100, mode="tcp")
    ctx.conform("udp", exe, "TraceConn", 800 * n, chunk=100, mode="udp")


CHECKS = {"C26": conn}

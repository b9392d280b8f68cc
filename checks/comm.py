"""CCommMgr on the virtual kernel."""
import vlib

SRC = ["CCommMgr.cpp", "CEvent.cpp", "Utils.cpp"]


def ncon(lines):
    """Reset events learn how many connections the history has."""
    cur, m = None, 1
    for e in lines:
        if e["e"] == "Reset":
            if cur is not None:
                cur["nc"] = m
            cur, m = e, 1
        elif "c" in e and isinstance(e["c"], int):
            m = max(m, e["c"])
    if cur is not None:
        cur["nc"] = m
    return lines


def comm(mode, n, model, asan=True, chunk=10, deep=(), race=0):
    def f(ctx):
        if race:   # the same histories with a switch of threads possible at every memory access
            t = ctx.build("commrace", ["d_comm.cpp"], SRC, tsan=True, vk=True, rawdrv=True)
            ctx.conform(mode + "-race", t, "TraceComm", race * (15 if ctx.thorough else 1), chunk=chunk, mode=mode, prep=ncon)
        exe = ctx.build("comm", ["d_comm.cpp"], SRC, asan=asan, vk=True)
        for m in (model,) + (deep if ctx.thorough else ()):
            ctx.model_check("MCUdp" if m == "MCUdp" else "MCComm", m, workers="8", min_states=1000)
        ctx.conform(mode, exe, "TraceComm", n * (15 if ctx.thorough else 1), chunk=chunk, mode=mode, prep=ncon)
    return f


def net(mode, n, race, models):
    """CNetWorkerMgr: the same histories, several reactors."""
    def f(ctx):
        src = SRC + ["CNetWorker.cpp", "CThread.cpp"]
        k = 15 if ctx.thorough else 1
        exe = ctx.build("net", ["d_comm.cpp"], src, asan=True, vk=True, defs=["NET"])
        t = ctx.build("netrace", ["d_comm.cpp"], src, tsan=True, vk=True, rawdrv=True, defs=["NET"])
        for m in models:
            ctx.model_check("MCNet" if m.startswith("MCNet") else "MCComm", m, workers="8", min_states=1000)
        ctx.conform(mode, exe, "TraceComm", n * k, chunk=10, mode=mode, prep=ncon)
        ctx.conform(mode + "-race", t, "TraceComm", race * k, chunk=10, mode=mode, prep=ncon)
    return f


CHECKS = {
    "C01": comm("in", 240, "MCCommRead", deep=("MCCommOne",)), "C02": comm("out", 240, "MCCommWrite", deep=("MCCommOne",)),
    "C03": comm("life", 480, "MCComm", deep=("MCCommMix", "MCCommOne")), "C04": comm("reuse", 240, "MCComm", deep=("MCCommMix",)),
    "C05": comm("limit", 120, "MCComm"), "C06": comm("bad", 240, "MCCommRead", deep=("MCCommOne",)),
    "C07": comm("timer", 240, "MCCommTM"), "C08": comm("msg", 240, "MCCommTM", race=480),
    "C09": comm("connect", 240, "MCCommOut", deep=("MCCommMix",)), "C10": comm("udp", 240, "MCUdp"),
    "C11": net("nlife", 240, 160, ["MCNet"]), "C27": net("nio", 240, 160, ["MCCommRead", "MCCommWrite"]),
    "C28": net("nmisc", 240, 160, ["MCNetTM", "MCCommOut"]),
}

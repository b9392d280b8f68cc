"""Task pool."""
import vlib


def task(ctx):
    exe = ctx.build("task", ["d_task.cpp"], ["CTask.cpp", "CThread.cpp"], tsan=True)
    ctx.model_check("MCTask", "MCTask", min_states=300)
    ctx.conform("pool", exe, "TraceTask", 1600 * (10 if ctx.thorough else 1), chunk=100, mode="pool", prep=vlib.callret)


CHECKS = {"C12": task}

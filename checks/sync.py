"""Locks, conditions, threads, singletons."""
import vlib


def locks(ctx):
    exe = ctx.build("sync", ["d_sync.cpp"], [], tsan=True)
    ctx.model_check("MCSync", "MCSync", min_states=500)
    ctx.model_check("MCSync", "MCSyncRw", min_states=20)
    ctx.conform("locks", exe, "TraceSync", 20000 if ctx.thorough else 2000, chunk=100, prep=vlib.callret)


def threads(ctx):
    exe = ctx.build("thread", ["d_thread.cpp"], ["CThread.cpp"], tsan=True)
    ctx.model_check("MCThread", "MCThread", min_states=500)
    ctx.conform("threads", exe, "TraceThread", 20000 if ctx.thorough else 2000, chunk=100, prep=vlib.callret)


CHECKS = {"C32": locks, "C33": threads}

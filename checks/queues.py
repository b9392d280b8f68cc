"""Blocking queue, SPSC queue."""
import vlib


def blockq(ctx):
    exe = ctx.build("queue", ["d_queue.cpp"], [], tsan=True)
    ctx.model_check("MCQueue", "MCQueue", min_states=500)
    n = 10 if ctx.thorough else 1
    ctx.conform("blockseq", exe, "TraceQueue", 160 * n, chunk=20, mode="blockseq", prep=vlib.callret)
    ctx.conform("block", exe, "TraceQueue", 2400 * n, chunk=150, mode="block", prep=vlib.callret)


def spsc(ctx):
    exe = ctx.build("queue", ["d_queue.cpp"], [], tsan=True)
    n = 10 if ctx.thorough else 1
    ctx.conform("circseq", exe, "TraceQueue", 80 * n, chunk=10, mode="circseq", prep=vlib.callret)
    ctx.conform("spsc", exe, "TraceQueue", 2400 * n, chunk=150, mode="spsc", prep=vlib.callret)


CHECKS = {"C14": blockq, "C15": spsc}

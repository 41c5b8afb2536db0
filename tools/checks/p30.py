"""Atomic cells and the mutex with conditions: schedules of the real classes validated against Shared.tla."""
from checks import simple

TARGETS = [('sched', 'drv_shared', ['drv_shared.cc'], [])]


def run(c):
    exe = c.build(TARGETS)['drv_shared']
    n = c.pick(8000, 80000)
    runs = simple.drive(c, exe, n, c.seed * 1000000)
    simple.judge(c, 'Trace_Shared', runs)

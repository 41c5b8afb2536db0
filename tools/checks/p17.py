"""Prediction: the extrapolator alone (Extrapolation.tla) and as the start of registrations (Pipeline.tla)."""
from checks import pipe, simple

TARGETS = [('sched', 'drv_extrapolator', ['drv_extrapolator.cc'], None)]


def run(c):
    exe = c.build(TARGETS)['drv_extrapolator']
    n = c.pick(6000, 60000)
    runs = simple.drive(c, exe, n, c.seed * 1000000)
    simple.judge(c, 'Trace_Extrapolation', runs)
    runs = pipe.sessions(c, c.pick([(16, 800)], [(16, 12000)]))
    pipe.judge(c, runs, 'P17')

"""Pose graph: the optimiser alone (Graph.tla) and in whole sessions with loop closing (Pipeline.tla)."""
from checks import pipe, simple

TARGETS = [('sched', 'drv_graph', ['drv_graph.cc'], None)]


def run(c):
    exe = c.build(TARGETS)['drv_graph']
    n = c.pick(1200, 12000)
    runs = simple.drive(c, exe, n, c.seed * 1000000)
    simple.judge(c, 'Trace_Graph', runs)
    runs = pipe.sessions(c, c.pick([(32, 600), (128, 250)], [(32, 9000), (128, 3000)]))
    pipe.judge(c, runs, 'P16')

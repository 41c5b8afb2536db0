"""Flat patches and the sampling that keeps them: the real classes judged by Planes.tla."""
from checks import simple

TARGETS = [('plain', 'drv_plane', ['drv_plane.cc'], ['common', 'common/performance'])]


def run(c):
    exe = c.build(TARGETS)['drv_plane']
    n = c.pick(3000, 40000)
    runs = simple.drive(c, exe, n, c.seed * 1000000)
    simple.judge(c, 'Trace_Planes', runs)

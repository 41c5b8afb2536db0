"""Place descriptors: the real descriptor on clouds that are moved, reordered or changed, judged by Places.tla."""
from checks import simple

DIRS = ['descriptor', 'builder/data', 'common', 'common/performance']
TARGETS = [('plain', 'drv_descriptor', ['drv_descriptor.cc'], DIRS)]


def run(c):
    exe = c.build(TARGETS)['drv_descriptor']
    n = c.pick(1000, 10000)
    runs = simple.drive(c, exe, n, c.seed * 1000000)
    simple.judge(c, 'Trace_Places', runs)

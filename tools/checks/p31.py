"""Range images: clusters and pictures of the real filter judged by Depth.tla."""
from checks import simple

DIRS = ['builder/data', 'common', 'common/performance', 'pre_processors', 'third_parties/pugixml']
TARGETS = [('plain', 'drv_depth', ['drv_depth.cc'], DIRS)]


def run(c):
    exe = c.build(TARGETS)['drv_depth']
    n = c.pick(2400, 24000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, per_proc_dir=True)
    simple.judge(c, 'Trace_Depth', runs)

"""Views of pose graphs: texts and pictures of the real code judged by View.tla."""
from checks import simple

TARGETS = [('plain', 'drv_view', ['drv_view.cc'], ['back_end', 'builder/data', 'common', 'common/performance'])]


def run(c):
    exe = c.build(TARGETS)['drv_view']
    n = c.pick(4000, 40000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, per_proc_dir=True)
    simple.judge(c, 'Trace_View', runs)

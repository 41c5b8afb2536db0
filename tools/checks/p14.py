from checks import simple

TARGETS = [('sched', 'drv_package', ['drv_package.cc'], None)]


def run(c):
    exe = c.build(TARGETS)['drv_package']
    n = c.pick(2000, 20000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, per_proc_dir=True)
    simple.judge(c, 'Trace_Packages', runs)

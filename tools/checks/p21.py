from checks import simple

TARGETS = [('sched', 'drv_config', ['drv_config.cc'], None)]


def run(c):
    exe = c.build(TARGETS)['drv_config']
    n = c.pick(3000, 30000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, per_proc_dir=True)
    simple.judge(c, 'Trace_Config', runs)

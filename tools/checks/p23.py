from checks import simple

DIRS = ['builder/data', 'common', 'common/performance', 'pre_processors', 'third_parties/pugixml']
TARGETS = [('sched', 'drv_skew', ['drv_skew.cc'], None), ('plain', 'drv_cloud', ['drv_cloud.cc'], DIRS)]


def run(c):
    exe = c.build(TARGETS)
    runs = simple.drive(c, exe['drv_skew'], c.pick(2000, 20000), c.seed * 1000000, per_proc_dir=True)
    runs += simple.drive(c, exe['drv_cloud'], c.pick(1000, 10000), c.seed * 1000000, args=['skew'], per_proc_dir=True)
    simple.judge(c, 'Trace_Skew', runs)

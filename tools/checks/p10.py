from checks import simple

DIRS = ['builder/data', 'common', 'common/performance', 'pre_processors', 'third_parties/pugixml']
TARGETS = [('plain', 'drv_cloud', ['drv_cloud.cc'], DIRS)]


def run(c):
    exe = c.build(TARGETS)['drv_cloud']
    n = c.pick(4000, 40000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, args=['store'], per_proc_dir=True)
    simple.judge(c, 'Trace_Clouds', runs)

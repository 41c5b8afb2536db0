from checks import simple

DIRS = ['builder/data', 'common', 'common/performance', 'pre_processors', 'third_parties/pugixml']
TARGETS = [('plain', 'drv_filters', ['drv_filters.cc'], DIRS)]


def run(c):
    exe = c.build(TARGETS)['drv_filters']
    n = c.pick(5000, 50000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, args=['chain'])
    simple.judge(c, 'Trace_Filters', runs)

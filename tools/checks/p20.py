from checks import simple

TARGETS = [('plain', 'drv_math', ['drv_math.cc'], ['common', 'common/performance'])]


def run(c):
    exe = c.build(TARGETS)['drv_math']
    n = c.pick(6000, 60000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, args=['ray'])
    simple.judge(c, 'Trace_Rays', runs)

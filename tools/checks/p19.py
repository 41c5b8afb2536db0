from checks import simple

TARGETS = [('plain', 'drv_math', ['drv_math.cc'], ['common', 'common/performance'])]


def run(c):
    exe = c.build(TARGETS)['drv_math']
    n = c.pick(3000, 30000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, args=['box'])
    simple.judge(c, 'Trace_Boxes', runs)

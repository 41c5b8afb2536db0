from checks import simple

TARGETS = [('sched', 'drv_loop', ['drv_loop.cc'], None)]


def run(c):
    exe = c.build(TARGETS)['drv_loop']
    n = c.pick(4000, 40000)
    runs = simple.drive(c, exe, n, c.seed * 1000000)
    scripts = c.generate('Gen_Loops', workers=1)
    if not c.quick:
        scripts += c.generate('Gen_Loops', 'Gen_Loops_big.cfg', workers=1)
    runs += simple.drive(c, exe, 0, c.seed * 1000000 + 500000, scripts=scripts)
    simple.judge(c, 'Trace_Loops', runs)

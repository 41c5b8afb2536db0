"""Registration: the real matchers on views of a scene, judged by Registration.tla."""
from checks import simple

TARGETS = [('plain', 'drv_register', ['drv_register.cc'], None)]


def run(c):
    exe = c.build(TARGETS)['drv_register']
    n = c.pick(800, 8000)
    runs = simple.drive(c, exe, n, c.seed * 1000000)
    simple.judge(c, 'Trace_Registration', runs)

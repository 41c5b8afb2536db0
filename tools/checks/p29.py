"""One cloud moved, stored, dropped and used again, with storage faults, judged by Holder.tla."""
from checks import simple

TARGETS = [('plain', 'drv_holder', ['drv_holder.cc'], ['builder/data', 'common', 'common/performance'])]


def run(c):
    exe = c.build(TARGETS)['drv_holder']
    n = c.pick(4000, 40000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, per_proc_dir=True)
    scripts = c.generate('Gen_Holder', c.pick('Gen_Holder.cfg', 'Gen_Holder_big.cfg'), workers=1)
    runs += simple.drive(c, exe, 0, c.seed * 1000000 + 500000, per_proc_dir=True, scripts=scripts)
    hist = simple.judge(c, 'Trace_Holder', runs)
    c.extra['storage_faults'] = sum(1 for h in hist for e in h if e['e'] == 'saving' and e['room'] >= 0)
    c.extra['spoiled_files'] = sum(1 for h in hist for e in h if e['e'] == 'spoil')

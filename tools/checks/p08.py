"""Stores of position fixes and odometry: the real data collector (Records.tla) and whole sessions (Pipeline.tla)."""
from checks import pipe, simple

DIRS = ['builder/data', 'common', 'common/performance', 'pre_processors', 'third_parties/pugixml']
TARGETS = [('plain', 'drv_records', ['drv_records.cc'], DIRS)]


def run(c):
    exe = c.build(TARGETS)['drv_records']
    n = c.pick(16000, 160000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, per_proc_dir=True)
    hist = simple.judge(c, 'Trace_Records', runs)
    c.extra['answers_present'] = sum(1 for h in hist for e in h if e.get('got') and e['e'] in ('glook', 'olook'))
    c.extra['answers_absent'] = sum(1 for h in hist for e in h if e.get('got') is False and e['e'] in ('glook', 'olook'))
    runs = pipe.sessions(c, c.pick([(64, 600), (128, 250)], [(64, 9000), (128, 3000)]))
    pipe.judge(c, runs, 'P08')

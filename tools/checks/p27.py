"""Command-line programs: the real programs on generated files, judged by Tools.tla."""
from checks import simple

PROGRAMS = ['join_pieces', 'pcd_sampler', 'path_statistic']
TARGETS = [('plain', 'tool_' + p, ['tool_%s.cc' % p], ['third_parties/pugixml']) for p in PROGRAMS] + \
    [('plain', 'drv_tools', ['drv_tools.cc'], ['third_parties/pugixml'])]


def run(c):
    exe = c.build(TARGETS)
    n = c.pick(1200, 8000)
    runs = simple.drive(c, exe['drv_tools'], n, c.seed * 1000000, args=[exe['tool_' + p] for p in PROGRAMS],
                        per_proc_dir=True)
    simple.judge(c, 'Trace_Tools', runs)

"""Helpers for files and folders: the real functions on a scratch tree, judged by Files.tla."""
from checks import simple

TARGETS = [('plain', 'drv_files', ['drv_files.cc'], ['common'])]


def run(c):
    exe = c.build(TARGETS)['drv_files']
    n = c.pick(6000, 60000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, per_proc_dir=True)
    simple.judge(c, 'Trace_Files', runs)

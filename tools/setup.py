#!/usr/bin/env python3
"""Builds every driver of every check once, so that the checks find a warm compiler cache."""
import glob, importlib, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vbuild

targets = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks', 'p*.py'))):
    mod = importlib.import_module('checks.' + os.path.basename(f)[:-3])
    for t in mod.TARGETS:
        targets[(t[0], t[1])] = t
exes = vbuild.build(list(targets.values()))
print('\n'.join(sorted(exes.values())))

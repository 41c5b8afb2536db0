"""Whole mapping sessions: the real map builder under controlled schedules, judged by Pipeline.tla."""
import os
import vlib

TARGETS = [('sched', 'drv_pipe', ['drv_pipe.cc'], None)]


def sessions(c, parts, procs=8):
    """parts: list of (mode, number of sessions).  Returns the runs."""
    exe = c.build(TARGETS)['drv_pipe']
    base = c.seed * 10000000 + int(c.prop[1:]) * 100000
    jobs = []
    for mode, n in parts:
        per = (n + procs - 1) // procs
        for j in range(procs):
            jobs.append((mode, base, per))
            base += per

    def job(k):
        mode, first, n = jobs[k]
        out = c.file('pipe%d.nd' % k)
        c.run([exe, out, c.file('scratch%d' % k), str(mode), str(first), str(n)], 800)
        return vlib.read_runs(out)

    return sum(c.parallel([lambda k=k: job(k) for k in range(len(jobs))], procs), [])


def judge(c, runs, tags):
    hist = [r[1] + [{'e': 'exit', 'st': r[2]}] for r in runs]
    os.environ['TAGS'] = tags
    rej = c.validate('Trace_Pipeline', hist)
    for k in sorted(rej):
        hist[k].insert(0, {'e': 'replay', 'driver': 'drv_pipe', 'seed': runs[k][0]['seed'], 'mode': runs[k][0]['mode']})
    c.reject('Trace_Pipeline', hist, {k: d + 1 for k, d in rej.items()})
    c.sample('a session', hist[0])
    c.extra['sessions_with_submaps_joined'] = sum(any(e['e'] == 'ba' for e in h) for h in hist)
    c.extra['sessions_finished_while_inserting'] = sum(
        any(e['e'] == 'fin' for e in h[:k]) for h in hist
        for k in [max([i for i, e in enumerate(h) if e['e'] == 'insret' and e['i'] >= 0] or [0])])
    c.extra['scans_offered_while_finishing'] = sum(e['e'] == 'ins' and e['asked'] for h in hist for e in h)
    c.extra['registrations'] = sum(e['e'] == 'fa' for h in hist for e in h)
    c.extra['sessions_distinct'] = len({str(h) for h in hist})

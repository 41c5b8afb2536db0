"""Worker pool: schedules of the real pool validated against Pool.tla."""
import vlib

TARGETS = [('sched', 'drv_pool', ['drv_pool.cc'], [])]


def run(c):
    ex = c.build(TARGETS)
    c.model_check('MC_PoolImpl')
    c.model_check('MC_PoolImpl', 'MC_PoolImpl_wait.cfg')
    if not c.quick:
        c.model_check('MC_PoolImpl', 'MC_PoolImpl_big.cfg', timeout=800)
        for v in ('nonotify', 'dropqueue', 'noloop', 'lazy'):
            t = c.tlc('MC_PoolImpl', 'MC_PoolImpl_%s.cfg' % v, count=False)
            if t.rc not in (12, 13):
                raise vlib.CheckError('model does not reject variant %s (%d)' % (v, t.rc))
    n = c.pick(12000, 60000)
    per = n // 8
    base = c.seed * 1000000

    def job(j):
        out = c.file('pool%d.nd' % j)
        c.run([ex['drv_pool'], out, str(base + j * per), str(per)], 700)
        return vlib.read_runs(out)

    runs = sum(c.parallel([lambda j=j: job(j) for j in range(8)]), [])
    hist = [r[1] + [{'e': 'exit', 'st': r[2]}] for r in runs]
    rej = c.validate('Trace_Pool', hist)
    for k in sorted(rej):
        hist[k].insert(0, {'e': 'replay', 'driver': 'drv_pool', 'seed': runs[k][0]['seed']})
    c.reject('Trace_Pool', hist, {k: d + 1 for k, d in rej.items()})
    c.sample('history of one schedule', hist[0])
    c.extra['schedules_refused_task'] = sum(any(e['e'] == 'subret' and not e['ok'] for e in h) for h in hist)
    c.extra['schedules_distinct'] = len({str(h) for h in hist})

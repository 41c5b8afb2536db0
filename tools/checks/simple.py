"""Checks of the form: a driver logs histories, a trace specification judges them."""
import vlib


def drive(c, exe, n, first, procs=8, timeout=700, args=(), per_proc_dir=False, scripts=None):
    """Runs n seeds of a driver, or one per generated script, in parallel; returns the runs."""
    n = len(scripts) if scripts else n
    per = (n + procs - 1) // procs

    def job(j):
        out = c.file('%s_%d_%d.nd' % (exe.split('/')[-1], first, j))
        extra = list(args) + ([c.file('dir%d_%d' % (first, j))] if per_proc_dir else [])
        env = {}
        count = min(per, n - j * per)
        if count <= 0:
            return []
        if scripts:
            env['VERIF_SCRIPT'] = out + '.script'
            with open(env['VERIF_SCRIPT'], 'w') as f:
                f.write(''.join(' '.join(map(str, s)) + '\n' for s in scripts[j * per:(j + 1) * per]))
        c.run([exe, out, str(first + j * per), str(count)] + extra, timeout, env=env)
        return vlib.read_runs(out)

    return sum(c.parallel([lambda j=j: job(j) for j in range(procs)], procs), [])


def judge(c, spec, runs, describe=None):
    hist = [r[1] + [{'e': 'exit', 'st': r[2]}] for r in runs]
    rej = c.validate(spec, hist)
    for k in sorted(rej):
        hist[k].insert(0, dict(runs[k][0], e='replay'))
    c.reject(spec, hist, {k: d + 1 for k, d in rej.items()}, describe)
    c.sample('a recorded history', hist[0])
    kinds = {}
    for h in hist:
        for e in h:
            kinds[e['e']] = kinds.get(e['e'], 0) + 1
    c.extra.setdefault('events_by_kind', {}).update(kinds)
    c.extra['histories_distinct'] = c.extra.get('histories_distinct', 0) + len({str(h) for h in hist})
    return hist


def models(c, module, variants):
    """Checks an implementation model; in the thorough tier also larger, and that it rejects every mistake."""
    c.model_check(module)
    if c.quick:
        return
    c.model_check(module, module + '_big.cfg', timeout=800)
    for v in variants:
        t = c.tlc(module, '%s_%s.cfg' % (module, v), count=False)
        if t.rc not in (12, 13):
            raise vlib.CheckError('model does not reject variant %s (%d)' % (v, t.rc))

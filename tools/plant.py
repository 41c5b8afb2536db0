"""Confirms planted bugs: plant.py <bug folder> ... (demo fails with the patch, passes without; the check's answer)."""
import json, os, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def main():
    skip_demo = '--check' in sys.argv
    for b in [a for a in sys.argv[1:] if not a.startswith('--')]:
        d = os.path.join(ROOT, 'seeded', b)
        prop = json.load(open(d + '/meta.json'))['property']
        assert not sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip()
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(b, 'patch does not apply', r.stdout.decode())
            continue
        try:
            demo = '-'
            if not skip_demo:
                r = sh('bash /opt/vp/build.sh')
                if r.returncode:
                    print(b, 'does not build', r.stdout.decode()[-2000:])
                    continue
                r = sh('bash /opt/vp/test.sh /tmp/plant_tests.json')
                if r.returncode or b' 0 failed' not in r.stdout:
                    print(b, 'tests', r.stdout.decode(errors='replace')[-300:])
                t = time.time()
                r = sh('bash %s/demo.sh' % d, cwd='/repo')
                demo = '%d (%.0fs) %s' % (r.returncode, time.time() - t, r.stdout.decode(errors='replace')[-150:].strip())
            t = time.time()
            r = sh('VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py %s quick' % prop, cwd=ROOT)
            out = r.stdout.decode(errors='replace')
            print(b, prop, 'demo:', demo, '| check: exit', r.returncode, '(%.0fs)' % (time.time() - t),
                  [l for l in out.splitlines() if 'rejects' in l or 'violation' in l][:1] or out[-300:], flush=True)
        finally:
            sh('git -C /repo checkout -- .')
    if not skip_demo:
        sh('bash /opt/vp/build.sh')
        for b in [a for a in sys.argv[1:] if not a.startswith('--')]:
            r = sh('bash %s/seeded/%s/demo.sh' % (ROOT, b), cwd='/repo')
            print(b, 'unchanged tree: demo', r.returncode, r.stdout.decode()[-100:] if r.returncode else '', flush=True)


main()

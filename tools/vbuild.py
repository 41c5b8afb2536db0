"""Builds the sources of /repo and the drivers, with ccache, outside /repo.

Variants:
  plain  the flags of the repository (OpenMP on)
  sched  no OpenMP, thread-sanitizer instrumentation calling harness/vsched.cc
  omp    as sched, with OpenMP on and its runtime replaced by harness/vgomp.cc
Objects are re-used only when the preprocessed input is identical (ccache), so a
build always reflects the current working tree of /repo.
"""
import glob, hashlib, os, subprocess
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
HARNESS = os.path.join(ROOT, 'harness')

DIRS = ['common', 'common/performance', 'descriptor', 'back_end', 'registrators',
        'pre_processors', 'builder', 'builder/data', 'third_parties/pugixml']
FAKES = ['fake_matcher.cc', 'fake_pointmatcher.cc']
REPLACED = {'registrators/icp_pointmatcher.cc'}
BASE = ['-std=gnu++14', '-w', '-fPIC', '-DEIGEN_HAS_CXX17_OVERALIGN=0',
        '-D_PROF_LOG_DIR_=".static_mapping_log"', '-DBOOST_ALL_DYN_LINK',
        '-include', HARNESS + '/prelude.h',
        '-I' + HARNESS + '/stubs', '-I' + HARNESS,
        '-I' + REPO + '/third_parties', '-I' + REPO, '-I' + REPO + '/builder',
        '-isystem', '/usr/include/eigen3', '-isystem', '/usr/include/pcl-1.14',
        '-isystem', '/usr/include/vtk-9.1']
VARIANT = {'plain': ['-O1', '-fopenmp'],
           'sched': ['-O1', '-fsanitize=thread', '-DVERIF_SCHED'],
           'omp': ['-O1', '-fsanitize=thread', '-DVERIF_SCHED', '-fopenmp']}
RUNTIME = {'plain': [], 'sched': ['vsched.cc'], 'omp': ['vsched.cc', 'vgomp.cc']}
LIBS = ('-lpcl_common -lpcl_io -lpcl_octree -lpcl_kdtree -lpcl_search -lpcl_filters '
        '-lpcl_features -lpcl_sample_consensus -lpcl_segmentation -lpcl_registration '
        '-lgtsam -ltbb -lboost_thread -lboost_system -lboost_filesystem -lboost_timer '
        '-lboost_chrono -lboost_serialization -lglog -lgflags -lGeographicLib '
        '-lMagick++-6.Q16 -lMagickCore-6.Q16 -lpng -lX11 -lpthread -ldl').split()


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
    e['CCACHE_MAXSIZE'] = '3G'
    e['CCACHE_NOHASHDIR'] = '1'
    e['CCACHE_SLOPPINESS'] = ''
    e.pop('CCACHE_DISABLE', None)
    e.pop('CCACHE_READONLY', None)
    return e


def _compile(job):
    src, obj, flags = job
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = '%s.%d.tmp.o' % (obj, os.getpid())
    r = subprocess.run(['ccache', 'g++'] + flags + ['-c', src, '-o', tmp],
                       env=_env(), cwd='/', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        if os.path.exists(tmp):
            os.remove(tmp)
        return (src, None, r.stdout.decode(errors='replace')[-4000:])
    os.replace(tmp, obj)
    return (src, obj, '')


def lib_jobs(variant, dirs=None):
    flags = BASE + VARIANT[variant]
    jobs = []
    for d in (DIRS if dirs is None else dirs):
        files = sorted(glob.glob(os.path.join(REPO, d, '*.cc')) + glob.glob(os.path.join(REPO, d, '*.cpp')))
        for f in files:
            rel = os.path.relpath(f, REPO)
            if rel in REPLACED:
                continue
            # the registrators are replaced by stand-ins; they are compiled to link only
            extra = ['-fopenmp'] if d == 'registrators' else []
            if rel == 'registrators/interface.cc':
                extra += ['-DCreateMatcher=CreateMatcher_real']
            obj = os.path.join(BUILD, variant, 'repo', rel.replace('/', '__') + '.o')
            jobs.append((f, obj, flags + extra))
    return jobs


def build(targets, jobs_n=8, log=None):
    """targets: list of (variant, driver name, [harness sources], directories of /repo or
    None for all); returns name -> exe.  A driver gets the stand-in matchers only when it
    is linked with the directory that declares them."""
    variants = sorted({t[0] for t in targets})
    jobs = []
    for v, _, _, dirs in targets:
        jobs += lib_jobs(v, dirs)
    for v in variants:
        for s in FAKES:
            jobs.append((os.path.join(HARNESS, s), os.path.join(BUILD, v, 'harness', s + '.o'),
                         BASE + VARIANT[v]))
        for s in RUNTIME[v]:
            jobs.append((os.path.join(HARNESS, s), os.path.join(BUILD, v, 'harness', s + '.o'), BASE + ['-O2']))
    for v, name, srcs, _ in targets:
        for s in srcs:
            jobs.append((os.path.join(HARNESS, s), os.path.join(BUILD, v, 'harness', s.replace('/', '__') + '.o'),
                         BASE + VARIANT[v]))
    uniq = {}
    for j in jobs:
        uniq[j[1]] = j
    # long ones first
    heavy = ('isam_optimizer', 'icp_fast', 'ndt', 'map_builder', 'submap', 'interface', 'loop_detector')
    order = sorted(uniq.values(), key=lambda j: -sum(h in j[0] for h in heavy))
    with ThreadPoolExecutor(jobs_n) as ex:
        res = list(ex.map(_compile, order))
    failed = {r[0]: r[2] for r in res if r[1] is None}
    done = {r[1] for r in res if r[1]}
    exes = {}
    for v, name, srcs, dirs in targets:
        fakes = FAKES if dirs is None or 'registrators' in dirs else []
        hobjs = [os.path.join(BUILD, v, 'harness', s.replace('/', '__') + '.o')
                 for s in srcs + fakes + RUNTIME[v]]
        for o, s in zip(hobjs, srcs):
            if o not in done:
                raise BuildError('driver %s does not compile:\n%s' % (s, failed.get(os.path.join(HARNESS, s), '')))
        robjs = [j[1] for j in lib_jobs(v, dirs) if j[1] in done]
        exe = os.path.join(BUILD, v, 'bin', name)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        # the library objects go into an archive so that only what a driver needs is linked
        h = hashlib.sha1()
        for o in hobjs + robjs:
            h.update(o.encode())
            with open(o, 'rb') as f:
                h.update(hashlib.sha1(f.read()).digest())
        stamp = h.hexdigest()
        if os.path.exists(exe) and os.path.exists(exe + '.stamp') and open(exe + '.stamp').read() == stamp:
            exes[name] = exe
            continue
        ar = exe + '.a'
        if os.path.exists(ar):
            os.remove(ar)
        subprocess.run(['ar', 'qcs', ar] + robjs, check=True)
        cmd = ['g++', '-o', exe + '.tmp'] + hobjs + [ar] + \
              ['-fopenmp'] + ['-rdynamic', '-Wl,--no-as-needed'] + [] + \
              ['-Wl,--as-needed'] + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.remove(ar)
        if r.returncode != 0:
            if dirs is not None:
                # code may have moved to another directory
                exes.update(build([(v, name, srcs, None)], jobs_n, log))
                continue
            msg = r.stdout.decode(errors='replace')[-3000:]
            for s, m in failed.items():
                msg += '\n--- %s\n%s' % (s, m)
            raise BuildError('link of %s failed:\n%s' % (name, msg))
        os.replace(exe + '.tmp', exe)
        with open(exe + '.stamp', 'w') as f:
            f.write(stamp)
        exes[name] = exe
    return exes

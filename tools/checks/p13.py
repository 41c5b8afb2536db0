from checks import simple

DIRS = ['builder', 'builder/data', 'common', 'common/performance']
TARGETS = [('omp', 'drv_voxel', ['drv_voxel.cc'], DIRS)]


def run(c):
    exe = c.build(TARGETS)['drv_voxel']
    n = c.pick(4000, 40000)
    runs = simple.drive(c, exe, n, c.seed * 1000000, per_proc_dir=True)
    simple.judge(c, 'Trace_Voxels', runs)

from checks import pipe, simple

TARGETS = pipe.TARGETS


def run(c):
    scale = c.pick(1, 6)
    simple.models(c, 'MC_PipelineImpl', ('endfirst', 'remfirst', 'countfirst', 'sizefirst', 'connfirst', 'early',
                                         'tellfirst', 'leave', 'nodrain', 'late'))
    runs = pipe.sessions(c, [(m, n * scale) for m, n in [(0,4000)]])
    pipe.judge(c, runs, c.prop)

from checks import pipe, simple

TARGETS = pipe.TARGETS


def run(c):
    scale = c.pick(1, 6)
    simple.models(c, 'MC_OffloadImpl', ('nocount', 'countfirst', 'nolock', 'flagfirst', 'noload'))
    runs = pipe.sessions(c, [(m, n * scale) for m, n in [(1,4500),(9,500)]])
    pipe.judge(c, runs, c.prop)

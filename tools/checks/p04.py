from checks import pipe

TARGETS = pipe.TARGETS


def run(c):
    scale = c.pick(1, 6)
    runs = pipe.sessions(c, [(m, n * scale) for m, n in [(0,4000),(8,800)]])
    pipe.judge(c, runs, c.prop)

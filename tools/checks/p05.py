from checks import pipe

TARGETS = pipe.TARGETS


def run(c):
    scale = c.pick(1, 6)
    runs = pipe.sessions(c, [(m, n * scale) for m, n in [(8,2000),(0,1400),(136,400)]])
    pipe.judge(c, runs, c.prop)

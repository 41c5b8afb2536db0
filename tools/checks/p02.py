from checks import pipe

TARGETS = pipe.TARGETS


def run(c):
    scale = c.pick(1, 6)
    runs = pipe.sessions(c, [(m, n * scale) for m, n in [(8,2500),(0,1500)]])
    pipe.judge(c, runs, c.prop)

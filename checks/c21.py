"""bounded stand-in for P21: the histories of P20, with other seeds"""
from checks import c20


def cases(env):
    yield from c20.special(env)
    for v in range(len(c20.VALUES)):
        yield "value", dict(v=v, a=1 - v % 2)
    for t in range(len(c20.TAGS)):
        yield "tag", dict(t=t, a=1 - t % 2)
    n = 200 if env.tier == "quick" else 1000
    for seed in range(1000, 1000 + n):
        yield "history", dict(seed=seed, a=seed % 2, steps=30)


check = c20.check

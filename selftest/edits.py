"""(name, properties whose checks are run, [(file, old, new)])"""
LP = "src/lock_pool.cpp"
D = "include/boost/atomic/detail/"
BAD = []
GOOD = []


def bad(name, props, *es):
    BAD.append((name, props.split(), list(es)))


def good(name, props, *es):
    GOOD.append((name, props.split(), list(es)))


def lp(old, new):
    return (LP, old, new)


import importlib, os
for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if f.startswith("e_") and f.endswith(".py"):
        importlib.import_module(f[:-3])

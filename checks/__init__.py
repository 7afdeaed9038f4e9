import importlib, pkgutil

REGISTRY = {}


def check(pid, explain='', rule='', assumptions=()):
    def deco(fn):
        REGISTRY[pid] = (fn, {'explain': explain, 'rule': rule, 'assumptions': list(assumptions)})
        return fn
    return deco


for m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
    importlib.import_module('checks.' + m)

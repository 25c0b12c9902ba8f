"""Harness registry: harness/*.py register functions against property ids."""
import importlib
import os
import sys

REG = {}     # property -> list of Harness


class Harness(object):
    def __init__(self, prop, fn, quick, thorough, opts, bounds):
        self.prop = prop
        self.fn = fn
        self.name = fn.__name__
        self.quick = quick
        self.thorough = thorough
        self.opts = opts
        self.bounds = bounds


def harness(prop, quick=({},), thorough=(), bounds='', **opts):
    """quick/thorough: lists of parameter dicts (thorough adds to quick)"""
    def deco(fn):
        REG.setdefault(prop, []).append(Harness(prop, fn, list(quick), list(thorough), opts,
                                                bounds or (fn.__doc__ or '').strip()))
        return fn
    return deco


def load_all():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if here not in sys.path:
        sys.path.insert(0, here)
    d = os.path.join(here, 'harness')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_'):
            importlib.import_module('harness.' + f[:-3])
    return REG


def find(prop, name):
    load_all()
    for h in REG.get(prop, ()):
        if h.name == name:
            return h
    raise KeyError(name)

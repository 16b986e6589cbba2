"""Catalogue of analysed entry points.  Each entry builds symbolic arguments and calls one public operation.

An entry is registered with @entry(name, **tags).  Tags used by the clients:
  group   module family
  random  the operation is declared to draw random numbers
  batch   symbols of the batch axes of the data, chan: of the channel axes, time: of the time/frequency axes
"""
REG = []


class Entry:
    __slots__ = ("name", "spec", "tags")

    def __init__(self, name, spec, tags):
        self.name = name
        self.spec = spec
        self.tags = tags

    def __repr__(self):
        return "<entry %s>" % self.name


def entry(name, **tags):
    def deco(f):
        REG.append(Entry(name, f, tags))
        return f
    return deco


def load():
    if not REG:
        from . import e_core, e_data, e_transforms, e_nn, e_wave, e_ref, e_ref2, e_ref3, e_ref4, e_ref5, e_ref6, e_ref7, e_ref8, e_ref9, e_ref10, e_ref11, e_ref12, e_dev, e_state, e_batch  # noqa: F401
        names = [e.name for e in REG]
        assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
    return REG


SHAPES = {1: ["T"], 2: ["C", "T"], 3: ["B", "C", "T"]}

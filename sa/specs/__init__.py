"""Reference formulas, one module per area."""
import importlib


def load():
    for m in ("s_gw", "s_spectral", "s_data", "s_ref"):
        importlib.import_module("sa.specs." + m)

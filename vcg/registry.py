import importlib, pkgutil, os
from spec import Reg
MODS = ["base", "kit", "boxes", "sphere", "planar", "basics", "images", "bloom", "optics", "tree", "medium", "trace", "render", "lights", "loader"]
def make(prog):
    reg = Reg(); reg.props = {}
    for m in MODS:
        importlib.import_module("contracts." + m).register(reg)
    return reg
